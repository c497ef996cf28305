//! AuCPace sessions.
use crate::sim::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, ServerMessage};
use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar, traits::Identity as _};
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use sha2::{Digest, Sha512};
use std::cell::RefCell;

const K1: usize = 16;

// ---------------------------------------------------------------- hasher

#[derive(Clone, Debug)]
pub struct P(u32, u8, bool);
impl Default for P {
    fn default() -> Self {
        P(1, 32, false)
    }
}
impl TryFrom<&PasswordHash<'_>> for P {
    type Error = password_hash::Error;
    fn try_from(_: &PasswordHash<'_>) -> Result<Self, Self::Error> {
        Ok(P::default())
    }
}
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: P) -> Result<ParamsString, Self::Error> {
        if p.2 {
            return Err(password_hash::Error::ParamNameInvalid);
        }
        let mut s = ParamsString::new();
        s.add_decimal("c", p.0)?;
        s.add_decimal("l", p.1 as u32)?;
        Ok(s)
    }
}
fn parse(p: &ParamsString) -> P {
    P(p.get_decimal("c").unwrap_or(1), p.get_decimal("l").unwrap_or(32).clamp(10, 64) as u8, false)
}

/// 0: works; 1: error; 2: no hash; 3: odd length
pub struct H(u8);
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(&self, pw: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, p: P, salt: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        if self.0 == 1 {
            return Err(password_hash::Error::Crypto);
        }
        let salt = salt.into();
        let mut d = Sha512::new();
        d.update([p.1]);
        d.update(p.0.to_be_bytes());
        d.update((salt.as_str().len() as u64).to_be_bytes());
        d.update(salt.as_str());
        d.update(pw);
        let h = d.finalize();
        let n = if self.0 == 3 { 48 } else { p.1 as usize };
        Ok(PasswordHash { algorithm: Ident::new_unwrap("sim"), version: None, params: ParamsString::new(), salt: Some(salt), hash: if self.0 == 2 { None } else { Some(Output::new(&h[..n])?) } })
    }
}

// ---------------------------------------------------------------- store

#[derive(Default)]
pub struct Store {
    plain: Option<(Vec<u8>, RistrettoPoint, SaltString, ParamsString)>,
    #[allow(dead_code)]
    strong: Option<(Vec<u8>, RistrettoPoint, Scalar, ParamsString)>,
    #[allow(dead_code)]
    pair: Option<(Scalar, RistrettoPoint)>,
}
impl Database for Store {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.plain.as_ref().filter(|r| r.0 == u).map(|r| (r.1, r.2.clone(), r.3.clone()))
    }
    fn store_verifier(&mut self, u: &[u8], s: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) {
        self.plain = Some((u.to_vec(), v, s, p));
    }
}
#[cfg(feature = "partial")]
impl aucpace::PartialAugDatabase for Store {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, _: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.pair
    }
    fn store_long_term_keypair(&mut self, _: &[u8], a: Scalar, b: RistrettoPoint) -> aucpace::Result<()> {
        self.pair = Some((a, b));
        Ok(())
    }
}
#[cfg(feature = "strong")]
impl aucpace::StrongDatabase for Store {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.strong.as_ref().filter(|r| r.0 == u).map(|r| (r.1, r.2, r.3.clone()))
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) {
        self.strong = Some((u.to_vec(), v, q, p));
    }
}

// ---------------------------------------------------------------- deployment

type Cl = AuCPaceClient<Sha512, H, Src, K1>;
type Sv = AuCPaceServer<Sha512, Src, K1>;

/// Objects all sessions use.
pub struct Shared {
    server: RefCell<Sv>,
    client: RefCell<Cl>,
    ss: Src,
    cs: Src,
}
impl Shared {
    pub fn new(base: u64) -> Self {
        let (ss, cs) = (Src::new(mix(&[base, 91])), Src::new(mix(&[base, 92])));
        Shared { server: RefCell::new(AuCPaceServer::new(ss.clone())), client: RefCell::new(AuCPaceClient::new(cs.clone())), ss, cs }
    }
}

fn pt(p: &RistrettoPoint) -> String {
    hex(p.compress().as_bytes())
}

#[allow(unused_variables)]
fn wire<M>(cx: &Ctx, m: &M, adj: u32)
where
    M: WireBound,
{
    #[cfg(feature = "serde")]
    {
        let b = bincode::serialize(m).expect("serialise");
        let idx = u32::from_le_bytes(b[..4].try_into().unwrap());
        cx.log.borrow_mut().wire(idx, idx.wrapping_sub(adj), &b[4..]);
    }
}
#[cfg(feature = "serde")]
trait WireBound: serde_::Serialize {}
#[cfg(feature = "serde")]
impl<T: serde_::Serialize> WireBound for T {}
#[cfg(feature = "serde")]
use serde as serde_;
#[cfg(not(feature = "serde"))]
trait WireBound {}
#[cfg(not(feature = "serde"))]
impl<T> WireBound for T {}

/// Log a client message: its fields and its encoding.
fn cm(cx: &Ctx, m: &ClientMessage<'_, K1>) {
    let g = cfg!(feature = "strong") as u32;
    let (s, adj) = match m {
        ClientMessage::Nonce(n) => (format!("nonce {}", hex(n)), 0),
        ClientMessage::Username(u) => (format!("user {}", hex(u)), 0),
        #[cfg(feature = "strong")]
        ClientMessage::StrongUsername { username, blinded } => (format!("suser {} {}", hex(username), pt(blinded)), 0),
        ClientMessage::PublicKey(y) => (format!("pub {}", pt(y)), g),
        ClientMessage::Authenticator(a) => (format!("auth {}", hex(a)), g),
        ClientMessage::Registration { username, salt, params, verifier } => (format!("reg {} {salt} {params} {}", hex(username), pt(verifier)), g),
        #[cfg(feature = "strong")]
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => (format!("sreg {} {} {params} {}", hex(username), hex(secret_exponent.as_bytes()), pt(verifier)), g),
    };
    cx.put(format!("c> {s}"));
    wire(cx, m, adj);
}
fn sm(cx: &Ctx, m: &ServerMessage<'_, K1>) {
    let g = cfg!(feature = "strong") as u32;
    let (s, adj) = match m {
        ServerMessage::Nonce(n) => (format!("nonce {}", hex(n)), 0),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => (format!("info {group} {} {salt} {pbkdf_params}", pt(x_pub)), 0),
        #[cfg(feature = "strong")]
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => (format!("sinfo {group} {} {} {pbkdf_params}", pt(x_pub), pt(blinded_salt)), 0),
        ServerMessage::PublicKey(y) => (format!("pub {}", pt(y)), g),
        ServerMessage::Authenticator(a) => (format!("auth {}", hex(a)), g),
    };
    cx.put(format!("s> {s}"));
    wire(cx, m, adj);
}

enum End {
    Crash,
    Err(&'static str, Error),
}
impl From<Crash> for End {
    fn from(_: Crash) -> Self {
        End::Crash
    }
}

struct Plan {
    strong: bool,
    partial: bool,
    heap: bool,
    pre: Option<(Vec<u8>, Vec<u8>)>,
    implicit: bool,
    user: Vec<u8>,
    pw: Vec<u8>,
    login_pw: Vec<u8>,
    ci: (Vec<u8>, Vec<u8>),
    known: bool,
    pair: bool,
    params: P,
    reg_fault: u8,
    log_fault: u8,
}

struct Atk<'a>(Prng, &'a Ctx);
impl Atk<'_> {
    fn hit(&mut self, pct: u64) -> bool {
        let h = self.0.chance(pct);
        if h && self.1.off & 4 == 0 {
            self.1.fault("tamper");
            return true;
        }
        false
    }
    fn point(&mut self, p: RistrettoPoint) -> RistrettoPoint {
        let (k, x) = (self.0.below(3), self.0.next());
        if !self.hit(6) {
            return p;
        }
        match k {
            0 => RistrettoPoint::identity(),
            1 => -p,
            _ => p * Scalar::from(x | 2),
        }
    }
    fn arr<const N: usize>(&mut self, mut a: [u8; N]) -> [u8; N] {
        let (i, b) = (self.0.below(N as u64) as usize, 1 << self.0.below(8));
        if self.hit(6) {
            a[i] ^= b;
        }
        a
    }
}

/// false: needs a feature this build does not have
pub async fn session(cx: Ctx, mut p: Prng, key: u64, sh: std::rc::Rc<Shared>) -> bool {
    let strong = p.chance(45);
    let partial = p.chance(40);
    let heap = p.chance(50);
    let implicit = p.chance(25);
    let pre = p.chance(30).then(|| {
        let n = if p.chance(15) { p.below(16) } else { 16 + p.below(40) } as usize;
        let a = p.bytes(n);
        let mut b = a.clone();
        if p.chance(10) {
            b.push(1);
        }
        (a, b)
    });
    let (user, pw) = (p.blob(), p.blob());
    let login_pw = if p.chance(15) { p.blob() } else { pw.clone() };
    let ci = p.blob();
    let ci2 = if p.chance(8) { p.blob() } else { ci.clone() };
    let fault = |p: &mut Prng| if p.chance(8) { 1 + p.below(4) as u8 } else { 0 };
    let pl = Plan {
        strong,
        partial,
        heap,
        pre,
        implicit,
        user,
        pw,
        login_pw,
        ci: (ci, ci2),
        known: !p.chance(12),
        pair: !p.chance(12),
        params: P(p.below(9) as u32, if p.chance(70) { 32 } else { 64 }, false),
        reg_fault: fault(&mut p),
        log_fault: fault(&mut p),
    };
    if (strong && !cfg!(feature = "strong")) || (partial && !cfg!(feature = "partial")) || (heap && !cfg!(feature = "alloc")) {
        return false;
    }
    let mut store = Store::default();
    if pl.known {
        register(&cx, &pl, key, &sh, &mut store);
    }
    #[cfg(feature = "partial")]
    if pl.partial && pl.pair {
        sh.ss.rekey(mix(&[key, 13]), false);
        let (a, b) = sh.server.borrow_mut().generate_long_term_keypair();
        cx.put(format!("pair {} {}", hex(a.as_bytes()), pt(&b)));
        store.pair = Some((a, b));
    }
    loop {
        match login(&cx, &pl, key, &sh, &store).await {
            Err(End::Crash) => {
                cx.put("crash");
                *cx.attempt.borrow_mut() += 1;
            }
            Err(End::Err(who, e)) => {
                cx.put(format!("{who} error {e:?} {e}"));
                return true;
            }
            Ok(()) => return true,
        }
    }
}

fn params(pl: &Plan, f: u8) -> P {
    P(pl.params.0, pl.params.1, f == 4)
}

fn register(cx: &Ctx, pl: &Plan, key: u64, sh: &Shared, store: &mut Store) {
    sh.cs.rekey(mix(&[key, 12]), false);
    let mut c = sh.client.borrow_mut();
    let (pa, h) = (params(pl, pl.reg_fault), H(pl.reg_fault & 3));
    let r = match (pl.strong, pl.heap) {
        (false, false) => c.register::<_, 256>(&pl.user, &pl.pw, pa, h),
        #[cfg(feature = "alloc")]
        (false, true) => c.register_alloc(&pl.user, &pl.pw, pa, h),
        #[cfg(feature = "strong")]
        (true, false) => c.register_strong::<_, 256>(&pl.user, &pl.pw, pa, h),
        #[cfg(all(feature = "strong", feature = "alloc"))]
        (true, true) => c.register_alloc_strong(&pl.user, &pl.pw, pa, h),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    };
    match r {
        Ok(m) => {
            cm(cx, &m);
            match m {
                ClientMessage::Registration { username, salt, params, verifier } => store.store_verifier(username, salt, None, verifier, params),
                #[cfg(feature = "strong")]
                ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => aucpace::StrongDatabase::store_verifier_strong(store, username, None, verifier, secret_exponent, params),
                _ => cx.put("odd registration"),
            }
        }
        Err(e) => cx.put(format!("register {e:?} {e}")),
    }
}

async fn login(cx: &Ctx, pl: &Plan, key: u64, sh: &Shared, store: &Store) -> Result<(), End> {
    let att = *cx.attempt.borrow();
    let mut atk = Atk(Prng::new(&[key, 20, att]), cx);
    let stuck = atk.0.chance(4) && cx.off & 8 == 0;
    if stuck {
        cx.fault("stuck_source");
    }
    let fail = |w| move |e| End::Err(w, e);
    // SSID
    sh.cs.rekey(mix(&[key, 21, att]), false);
    sh.ss.rekey(mix(&[key, 22, att]), false);
    let (c, s) = if let Some((a, b)) = &pl.pre {
        (sh.client.borrow_mut().begin_prestablished_ssid(a).map_err(fail("client ssid"))?, sh.server.borrow_mut().begin_prestablished_ssid(b).map_err(fail("server ssid"))?)
    } else {
        let (c, cn) = {
            let mut cl = sh.client.borrow_mut();
            let (c, m) = cl.begin();
            cm(cx, &m);
            let ClientMessage::Nonce(n) = m else { return Ok(cx.put("odd nonce")) };
            (c, n)
        };
        cx.cross().await?;
        sh.ss.rekey(mix(&[key, 22, att]), false);
        let (s, m) = sh.server.borrow_mut().begin();
        sm(cx, &m);
        let ServerMessage::Nonce(sn) = m else { return Ok(cx.put("odd nonce")) };
        let s = s.agree_ssid(atk.arr(cn));
        cx.cross().await?;
        (c.agree_ssid(atk.arr(sn)), s)
    };
    // augmentation
    let mut rc = Src::new(mix(&[key, 23, att]));
    let rs = Src::new(mix(&[key, 24, att]));
    rs.rekey(mix(&[key, 24, att]), stuck);
    let f = pl.log_fault & 3;
    let (c, s) = if !pl.strong {
        let (c, m) = c.start_augmentation(&pl.user, &pl.login_pw);
        cm(cx, &m);
        cx.cross().await?;
        let (s, m) = match pl.partial {
            false => s.generate_client_info(&pl.user, store, rs.clone()),
            #[cfg(feature = "partial")]
            true => s.generate_client_info_partial_aug(&pl.user, store, rs.clone()),
            #[cfg(not(feature = "partial"))]
            true => unreachable!(),
        };
        sm(cx, &m);
        cx.cross().await?;
        let ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } = m else { return Ok(cx.put("odd info")) };
        let (x, pa) = (atk.point(x_pub), parse(&pbkdf_params));
        let c = match pl.heap {
            false => c.generate_cpace::<&SaltString, 256>(x, &salt, pa, H(f)),
            #[cfg(feature = "alloc")]
            true => {
                let sa: &'static SaltString = Box::leak(Box::new(salt.clone()));
                c.generate_cpace_alloc(x, sa, pa, H(f))
            }
            #[cfg(not(feature = "alloc"))]
            true => unreachable!(),
        };
        (c.map_err(fail("client aug"))?, s)
    } else {
        #[cfg(not(feature = "strong"))]
        unreachable!();
        #[cfg(feature = "strong")]
        {
            let (c, m) = c.start_augmentation_strong(&pl.user, &pl.login_pw, &mut rc);
            cm(cx, &m);
            let ClientMessage::StrongUsername { blinded, .. } = m else { return Ok(cx.put("odd user")) };
            cx.cross().await?;
            let b = atk.point(blinded);
            let (s, m) = match pl.partial {
                false => s.generate_client_info_strong(&pl.user, b, store, rs.clone()),
                #[cfg(feature = "partial")]
                true => s.generate_client_info_partial_strong(&pl.user, b, store, rs.clone()),
                #[cfg(not(feature = "partial"))]
                true => unreachable!(),
            }
            .map_err(fail("server aug"))?;
            sm(cx, &m);
            cx.cross().await?;
            let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } = m else { return Ok(cx.put("odd info")) };
            let (x, bs, pa) = (atk.point(x_pub), atk.point(blinded_salt), parse(&pbkdf_params));
            let c = match pl.heap {
                false => c.generate_cpace::<256>(x, bs, pa, H(f)),
                #[cfg(feature = "alloc")]
                true => c.generate_cpace_alloc(x, bs, pa, H(f)),
                #[cfg(not(feature = "alloc"))]
                true => unreachable!(),
            };
            (c.map_err(fail("client aug"))?, s)
        }
    };
    // CPace
    let (c, m) = c.generate_public_key(&pl.ci.0, &mut rc);
    cm(cx, &m);
    let ClientMessage::PublicKey(ya) = m else { return Ok(cx.put("odd key")) };
    cx.cross().await?;
    let (s, m) = s.generate_public_key(&pl.ci.1);
    sm(cx, &m);
    let ServerMessage::PublicKey(yb) = m else { return Ok(cx.put("odd key")) };
    let (ya, yb) = (atk.point(ya), atk.point(yb));
    if pl.implicit {
        let k = s.implicit_auth(ya).map_err(fail("server key"))?;
        cx.put(format!("server key {}", hex(&k)));
        cx.cross().await?;
        let k = c.implicit_auth(yb).map_err(fail("client key"))?;
        cx.put(format!("client key {}", hex(&k)));
        return Ok(());
    }
    let s = s.receive_client_pubkey(ya).map_err(fail("server key"))?;
    cx.cross().await?;
    let (c, m) = c.receive_server_pubkey(yb).map_err(fail("client key"))?;
    cm(cx, &m);
    let ClientMessage::Authenticator(tb) = m else { return Ok(cx.put("odd auth")) };
    cx.cross().await?;
    let (k, m) = s.receive_client_authenticator(atk.arr(tb)).map_err(fail("server auth"))?;
    sm(cx, &m);
    cx.put(format!("server key {}", hex(&k)));
    let ServerMessage::Authenticator(ta) = m else { return Ok(cx.put("odd auth")) };
    cx.cross().await?;
    let k = c.receive_server_authenticator(atk.arr(ta)).map_err(fail("client auth"))?;
    cx.put(format!("client key {}", hex(&k)));
    Ok(())
}
