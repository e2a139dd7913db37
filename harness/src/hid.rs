//! Emulated FIDO tokens: the device enumeration (udev), the device files
//! (hidraw) and the source of randomness are replaced by a world that belongs
//! to a session.  Threads belong to the world of the thread that made them.
//! What the library makes the tokens do is recorded command by command.
use crate::keys::{pad, sha, Signer, Sk};
use crate::p_fido::{seq, uint};
use aes::cipher::{generic_array::GenericArray, BlockDecrypt, BlockEncrypt, NewBlockCipher};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_ulong, c_void};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- CBOR
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    I(i64),
    B(Vec<u8>),
    T(String),
    A(Vec<C>),
    M(Vec<(C, C)>),
    Bool(bool),
    Nil,
}
fn head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    if n < 24 {
        vec![m | n as u8]
    } else if n < 256 {
        vec![m | 24, n as u8]
    } else if n < 65536 {
        vec![m | 25, (n >> 8) as u8, n as u8]
    } else {
        let mut v = vec![m | 26];
        v.extend((n as u32).to_be_bytes());
        v
    }
}
impl C {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            C::I(n) if *n >= 0 => head(0, *n as u64),
            C::I(n) => head(1, (-1 - *n) as u64),
            C::B(b) => [head(2, b.len() as u64), b.clone()].concat(),
            C::T(t) => [head(3, t.len() as u64), t.as_bytes().to_vec()].concat(),
            C::A(v) => {
                let mut o = head(4, v.len() as u64);
                v.iter().for_each(|x| o.extend(x.enc()));
                o
            }
            C::M(v) => {
                let mut o = head(5, v.len() as u64);
                v.iter().for_each(|(k, x)| {
                    o.extend(k.enc());
                    o.extend(x.enc());
                });
                o
            }
            C::Bool(b) => vec![if *b { 0xf5 } else { 0xf4 }],
            C::Nil => vec![0xf6],
        }
    }
    fn dec(b: &[u8], p: &mut usize) -> Option<C> {
        let h = *b.get(*p)?;
        *p += 1;
        let (m, a) = (h >> 5, h & 31);
        if m == 7 {
            return Some(match a {
                20 => C::Bool(false),
                21 => C::Bool(true),
                _ => C::Nil,
            });
        }
        let n = match a {
            0..=23 => a as u64,
            24..=27 => {
                let w = 1usize << (a - 24);
                let s = b.get(*p..*p + w)?;
                *p += w;
                s.iter().fold(0u64, |x, y| x << 8 | *y as u64)
            }
            _ => return None,
        };
        Some(match m {
            0 => C::I(n as i64),
            1 => C::I(-1 - n as i64),
            2 | 3 => {
                let s = b.get(*p..p.checked_add(n as usize)?)?.to_vec();
                *p += n as usize;
                if m == 2 {
                    C::B(s)
                } else {
                    C::T(String::from_utf8(s).ok()?)
                }
            }
            4 => C::A((0..n).map(|_| C::dec(b, p)).collect::<Option<_>>()?),
            5 => C::M((0..n).map(|_| Some((C::dec(b, p)?, C::dec(b, p)?))).collect::<Option<_>>()?),
            _ => return C::dec(b, p),
        })
    }
    pub fn parse(b: &[u8]) -> Option<C> {
        C::dec(b, &mut 0)
    }
    fn at(&self, k: &C) -> Option<&C> {
        match self {
            C::M(v) => v.iter().find(|x| &x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn n(&self, k: i64) -> Option<&C> {
        self.at(&C::I(k))
    }
    fn s(&self, k: &str) -> Option<&C> {
        self.at(&C::T(k.into()))
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            C::B(b) => b.clone(),
            C::T(t) => t.as_bytes().to_vec(),
            _ => vec![],
        }
    }
    fn int(&self) -> i64 {
        if let C::I(n) = self {
            *n
        } else {
            0
        }
    }
}
fn ob(x: Option<&C>) -> Vec<u8> {
    x.map(|y| y.bytes()).unwrap_or_default()
}

// ---------------------------------------------------------------- the world
/// what a token answers when it has made a credential
#[derive(Clone, Default)]
pub struct Att {
    pub fmt: String,
    pub alg: i64,
    pub ad: Vec<u8>,
    pub sig: Vec<u8>,
    pub x5c: Vec<Vec<u8>>,
}
#[derive(Clone)]
pub struct Cred {
    pub id: Vec<u8>,
    pub rp: Vec<u8>,
    pub key: Signer,
}
#[derive(Clone, Default)]
pub struct Tok {
    pub plugged: bool,
    /// speaks version 2.1 (selection command, tokens with permissions)
    pub v21: bool,
    /// supports PINs at all
    pub pins: bool,
    /// the first half of the digest of the PIN
    pub pin: Option<Vec<u8>>,
    pub tries: u8,
    pub strikes: u8,
    pub always: bool,
    pub notrqd: bool,
    /// somebody touches it when it blinks
    pub touch: bool,
    /// what it says when nobody does
    pub refusal: u8,
    pub creds: Vec<Cred>,
    pub ctr: u32,
    pub step: u32,
    /// other flags in assertions
    pub fl: u8,
    /// answers given to the next requests for a new credential
    pub atts: Vec<Att>,
    /// the PIN token it gave out
    pub grant: Option<Vec<u8>>,
    pub agree: Vec<u8>,
    pub nonce: u64,
}
#[derive(Clone, Default, Debug)]
pub struct FCmd {
    pub tok: usize,
    pub k: &'static str,
    pub rp: Vec<u8>,
    pub user: Vec<u8>,
    pub uname: Vec<u8>,
    pub algs: Vec<i64>,
    pub rk: bool,
    pub uv: bool,
    pub cdh: Vec<u8>,
    pub allow: Vec<Vec<u8>>,
    pub up: bool,
    /// the digest presented as the PIN's
    pub pinh: Vec<u8>,
    /// was the command authorised: "none", "good", "bad"
    pub auth: &'static str,
    pub st: u8,
    /// did the answer reach the library
    pub heard: bool,
    /// refused for a reason of its own
    pub said: bool,
    pub fmt: String,
    pub alg: i64,
    pub ad: Vec<u8>,
    pub sig: Vec<u8>,
    /// the low-level signature of an assertion
    pub raw: Vec<u8>,
    pub x5c: Vec<Vec<u8>>,
    pub left: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// unplugged before / after the command took effect
    Before,
    After,
    /// refused with this status
    Say(u8),
    /// an answer that makes no sense
    Garbage,
}
#[derive(Default)]
pub struct Inner {
    pub toks: Vec<Tok>,
    pub log: Vec<FCmd>,
    /// at the n-th command from here
    pub fault: Option<(usize, Fault)>,
    pub hit: bool,
}
pub struct World(pub Mutex<Inner>);
impl World {
    pub fn l(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
static WORLDS: Mutex<Option<HashMap<usize, Arc<World>>>> = Mutex::new(None);
thread_local! {
    static HERE: Cell<usize> = const { Cell::new(0) };
    static ARMED: Cell<Option<[u8; 32]>> = const { Cell::new(None) };
}
/// this thread, and the threads it makes, see this world until the end of f
pub fn within<T>(w: &Arc<World>, arm: Option<[u8; 32]>, f: impl FnOnce() -> T) -> T {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
    struct Out(usize);
    impl Drop for Out {
        fn drop(&mut self) {
            HERE.with(|h| h.set(0));
            ARMED.with(|a| a.set(None));
            if let Some(m) = &mut *WORLDS.lock().unwrap_or_else(|e| e.into_inner()) {
                m.remove(&self.0);
            }
        }
    }
    let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    WORLDS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).insert(id, w.clone());
    HERE.with(|h| h.set(id));
    ARMED.with(|a| a.set(arm));
    let _out = Out(id);
    f()
}
fn here() -> Option<Arc<World>> {
    let id = HERE.with(|h| h.get());
    if id == 0 {
        return None;
    }
    WORLDS.lock().unwrap_or_else(|e| e.into_inner()).as_ref().and_then(|m| m.get(&id).cloned())
}

// ---------------------------------------------------------------- a token
fn cbc(key: &[u8], data: &[u8], decrypt: bool) -> Vec<u8> {
    let c = aes::Aes256::new(GenericArray::from_slice(key));
    let mut prev = [0u8; 16];
    let mut out = vec![];
    for b in data.chunks_exact(16) {
        let mut x = [0u8; 16];
        x.copy_from_slice(b);
        if decrypt {
            c.decrypt_block(GenericArray::from_mut_slice(&mut x));
            x.iter_mut().zip(prev).for_each(|(a, p)| *a ^= p);
            prev.copy_from_slice(b);
        } else {
            x.iter_mut().zip(prev).for_each(|(a, p)| *a ^= p);
            c.encrypt_block(GenericArray::from_mut_slice(&mut x));
            prev = x;
        }
        out.extend(x);
    }
    out
}
fn hmac16(key: &[u8], msg: &[u8]) -> Vec<u8> {
    ring::hmac::sign(&ring::hmac::Key::new(ring::hmac::HMAC_SHA256, key), msg).as_ref()[..16].to_vec()
}
fn der_rs(raw: &[u8]) -> Vec<u8> {
    seq(&[uint(&raw[..32]), uint(&raw[32..])])
}
impl Tok {
    fn draw(&mut self) -> Vec<u8> {
        self.nonce += 1;
        sha("sha256", &[&self.nonce.to_be_bytes()[..], b"draw"].concat())
    }
    fn secret(&self, cose: &C) -> Option<Vec<u8>> {
        use p256::elliptic_curve::sec1::ToEncodedPoint;
        let (x, y) = (ob(cose.n(-2)), ob(cose.n(-3)));
        let pk = p256::PublicKey::from_sec1_bytes(&[&[4][..], &pad(&x, 32), &pad(&y, 32)].concat()).ok()?;
        let sk = p256::SecretKey::from_be_bytes(&self.agree).ok()?;
        let p = (p256::ProjectivePoint::from(*pk.as_affine()) * *sk.to_nonzero_scalar()).to_affine().to_encoded_point(false);
        Some(sha("sha256", p.x()?))
    }
    fn agreement(&mut self) -> C {
        use p256::elliptic_curve::sec1::ToEncodedPoint;
        if self.agree.is_empty() {
            self.agree = loop {
                let d = self.draw();
                if p256::SecretKey::from_be_bytes(&d).is_ok() {
                    break d;
                }
            };
        }
        let p = p256::SecretKey::from_be_bytes(&self.agree).unwrap().public_key().to_encoded_point(false);
        C::M(vec![(C::I(1), C::I(2)), (C::I(3), C::I(-25)), (C::I(-1), C::I(1)), (C::I(-2), C::B(p.x().unwrap().to_vec())), (C::I(-3), C::B(p.y().unwrap().to_vec()))])
    }
    fn info(&self) -> C {
        let mut v = vec![C::T("FIDO_2_0".into())];
        if self.v21 {
            v.push(C::T("FIDO_2_1".into()));
        }
        let mut o = vec![(C::T("rk".into()), C::Bool(true)), (C::T("up".into()), C::Bool(true)), (C::T("plat".into()), C::Bool(false))];
        if self.always {
            o.push((C::T("alwaysUv".into()), C::Bool(true)));
        }
        if self.pins {
            o.push((C::T("clientPin".into()), C::Bool(self.pin.is_some())));
        }
        if self.v21 && self.pins {
            o.push((C::T("pinUvAuthToken".into()), C::Bool(true)));
        }
        if self.notrqd {
            o.push((C::T("makeCredUvNotRqd".into()), C::Bool(true)));
        }
        C::M(vec![(C::I(1), C::A(v)), (C::I(3), C::B(vec![7; 16])), (C::I(4), C::M(o)), (C::I(5), C::I(1200)), (C::I(6), C::A(vec![C::I(1)]))])
    }
    fn authorised(&self, m: &C, field: i64, cdh: &[u8]) -> &'static str {
        match m.n(field) {
            None => "none",
            Some(p) => match &self.grant {
                Some(t) if hmac16(t, cdh) == p.bytes() => "good",
                _ => "bad",
            },
        }
    }
    /// may this command go on without a user present being asked
    fn refuse(&self, auth: &str, needed: bool) -> u8 {
        match auth {
            "bad" => 0x33,
            "none" if needed => 0x36,
            _ => 0,
        }
    }
    /// is this a request only to blink
    fn is_blink(m: &C) -> bool {
        m.n(8).map(|p| p.bytes().is_empty()).unwrap_or(false)
    }
    /// executes a command: what is recorded and what is answered
    fn exec(&mut self, cmd: u8, m: &C) -> (FCmd, Vec<u8>) {
        let mut r = FCmd { auth: "none", ..Default::default() };
        let mut out = vec![];
        match cmd {
            4 => {
                r.k = "info";
                out = self.info().enc();
            }
            1 => {
                r.k = "make";
                r.cdh = ob(m.n(1));
                r.rp = m.n(2).map(|x| ob(x.s("id"))).unwrap_or_default();
                r.user = m.n(3).map(|x| ob(x.s("id"))).unwrap_or_default();
                r.uname = m.n(3).map(|x| ob(x.s("name"))).unwrap_or_default();
                if let Some(C::A(v)) = m.n(4) {
                    r.algs = v.iter().map(|a| a.s("alg").map(|x| x.int()).unwrap_or(0)).collect();
                }
                if let Some(C::A(v)) = m.n(5) {
                    r.allow = v.iter().map(|a| ob(a.s("id"))).collect();
                }
                r.rk = m.n(7).and_then(|x| x.s("rk")) == Some(&C::Bool(true));
                r.uv = m.n(7).and_then(|x| x.s("uv")) == Some(&C::Bool(true));
                if Tok::is_blink(m) {
                    r.k = "blink";
                    r.st = if !self.touch {
                        self.refusal
                    } else if self.pin.is_some() {
                        0x31
                    } else {
                        0x35
                    };
                } else {
                    r.auth = self.authorised(m, 8, &r.cdh);
                    r.st = self.refuse(r.auth, self.always || (self.pin.is_some() && !self.notrqd));
                    if r.st == 0 && !r.algs.contains(&-8) && !r.algs.contains(&-7) {
                        r.st = 0x26;
                    }
                    if r.st == 0 && !self.touch {
                        r.st = self.refusal;
                    }
                    if r.st == 0 {
                        let a = if self.atts.is_empty() { Att { fmt: "none".into(), ..Default::default() } } else { self.atts.remove(0) };
                        let mut st = vec![];
                        if a.fmt == "packed" {
                            st.push((C::T("alg".into()), C::I(a.alg)));
                            st.push((C::T("sig".into()), C::B(a.sig.clone())));
                            if !a.x5c.is_empty() {
                                st.push((C::T("x5c".into()), C::A(a.x5c.iter().map(|x| C::B(x.clone())).collect())));
                            }
                        }
                        out = C::M(vec![(C::I(1), C::T(a.fmt.clone())), (C::I(2), C::B(a.ad.clone())), (C::I(3), C::M(st))]).enc();
                        (r.fmt, r.alg, r.ad, r.sig, r.x5c) = (a.fmt, a.alg, a.ad, a.sig, a.x5c);
                    }
                }
            }
            2 => {
                r.rp = ob(m.n(1));
                r.cdh = ob(m.n(2));
                if let Some(C::A(v)) = m.n(3) {
                    r.allow = v.iter().map(|a| ob(a.s("id"))).collect();
                }
                r.up = m.n(5).and_then(|x| x.s("up")) != Some(&C::Bool(false));
                r.uv = m.n(5).and_then(|x| x.s("uv")) == Some(&C::Bool(true));
                r.k = if r.up { "assert" } else { "probe" };
                r.auth = self.authorised(m, 6, &r.cdh);
                r.st = self.refuse(r.auth, self.always && r.up);
                let c = self.creds.iter().find(|c| c.rp == r.rp && r.allow.contains(&c.id)).cloned();
                if r.st == 0 && c.is_none() {
                    r.st = 0x2e;
                }
                if r.st == 0 && r.up && !self.touch {
                    r.st = self.refusal;
                }
                if r.st == 0 {
                    let c = c.unwrap();
                    self.ctr = self.ctr.wrapping_add(self.step);
                    let fl = self.fl & 0x3a | (r.up as u8) | if r.auth == "good" { 4 } else { 0 };
                    r.ad = sha("sha256", &r.rp);
                    r.ad.push(fl);
                    r.ad.extend(self.ctr.to_be_bytes());
                    r.raw = c.key.raw("", &[&r.ad[..], &r.cdh].concat()).sig;
                    r.sig = if let Sk::Ec(_) = c.key.sk { der_rs(&r.raw) } else { r.raw.clone() };
                    let d = C::M(vec![(C::T("id".into()), C::B(c.id.clone())), (C::T("type".into()), C::T("public-key".into()))]);
                    out = C::M(vec![(C::I(1), d), (C::I(2), C::B(r.ad.clone())), (C::I(3), C::B(r.sig.clone()))]).enc();
                }
            }
            6 => match m.n(2).map(|x| x.int()).unwrap_or(0) {
                1 => {
                    r.k = "tries";
                    r.left = self.tries;
                    out = C::M(vec![(C::I(3), C::I(self.tries as i64))]).enc();
                }
                2 => {
                    r.k = "agree";
                    out = C::M(vec![(C::I(1), self.agreement())]).enc();
                }
                n if n == 5 || (n == 9 && self.v21) => {
                    r.k = "pin";
                    let s = m.n(3).and_then(|c| self.secret(c));
                    if let Some(s) = &s {
                        r.pinh = cbc(s, &ob(m.n(6)), true);
                    }
                    let pin = self.pin.clone();
                    r.st = if pin.is_none() {
                        0x35
                    } else if self.tries == 0 {
                        0x32
                    } else if self.strikes >= 3 {
                        0x34
                    } else if s.is_some() && pin == Some(r.pinh.clone()) {
                        self.tries = 8;
                        self.strikes = 0;
                        0
                    } else {
                        self.tries -= 1;
                        self.strikes += 1;
                        self.agree = vec![];
                        if self.tries == 0 {
                            0x32
                        } else if self.strikes >= 3 {
                            0x34
                        } else {
                            0x31
                        }
                    };
                    if r.st == 0 {
                        let g = self.draw();
                        self.grant = Some(g.clone());
                        out = C::M(vec![(C::I(2), C::B(cbc(&s.unwrap(), &g, false)))]).enc();
                    }
                }
                _ => {
                    r.k = "other";
                    r.st = 0x3e;
                }
            },
            0x0b if self.v21 => {
                r.k = "select";
                r.st = if self.touch { 0 } else { self.refusal };
            }
            _ => {
                r.k = "other";
                r.st = 1;
            }
        }
        let mut ans = vec![r.st];
        if r.st == 0 {
            ans.extend(out);
        }
        (r, ans)
    }
    /// does this command wait for somebody to touch the token
    fn waits(&self, cmd: u8, m: &C) -> bool {
        !self.touch && (cmd == 0x0b || (cmd == 1 && Tok::is_blink(m)))
    }
}

// ---------------------------------------------------------------- its HID side
struct Wire {
    fd: c_int,
}
extern "C" {
    fn recv(fd: c_int, buf: *mut c_void, n: usize, flags: c_int) -> isize;
    fn send(fd: c_int, buf: *const c_void, n: usize, flags: c_int) -> isize;
    fn socketpair(d: c_int, t: c_int, p: c_int, fds: *mut c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn poll(fds: *mut [i32; 2], n: c_ulong, ms: c_int) -> c_int;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}
impl Wire {
    /// a whole message: channel, command, data
    fn get(&self) -> Option<([u8; 4], u8, Vec<u8>)> {
        let mut cid = [0u8; 4];
        let (mut cmd, mut want, mut data) = (0u8, 0usize, vec![]);
        let mut open = false;
        loop {
            let mut b = [0u8; 65];
            let n = unsafe { recv(self.fd, b.as_mut_ptr() as *mut c_void, 65, 0) };
            if n != 65 {
                return None;
            }
            let p = &b[1..];
            if p[4] & 0x80 != 0 {
                cid.copy_from_slice(&p[..4]);
                cmd = p[4];
                want = (p[5] as usize) << 8 | p[6] as usize;
                data = p[7..].to_vec();
                open = true;
            } else if open {
                data.extend(&p[5..]);
            }
            if open && data.len() >= want {
                data.truncate(want);
                return Some((cid, cmd, data));
            }
        }
    }
    fn put(&self, cid: &[u8; 4], cmd: u8, data: &[u8]) -> bool {
        let mut rest = data;
        let mut first = true;
        let mut sq = 0u8;
        while first || !rest.is_empty() {
            let mut p = cid.to_vec();
            if first {
                p.extend([cmd, (data.len() >> 8) as u8, data.len() as u8]);
            } else {
                p.push(sq);
                sq += 1;
            }
            let k = (64 - p.len()).min(rest.len());
            p.extend(&rest[..k]);
            rest = &rest[k..];
            p.resize(64, 0);
            if unsafe { send(self.fd, p.as_ptr() as *const c_void, 64, 0x4000) } != 64 {
                return false;
            }
            first = false;
        }
        true
    }
    fn ready(&self, ms: i32) -> bool {
        let mut f = [self.fd, 1];
        unsafe { poll(&mut f, 1, ms) > 0 }
    }
}
impl Drop for Wire {
    fn drop(&mut self) {
        unsafe { close(self.fd) };
    }
}
fn serve(w: Arc<World>, t: usize, fd: c_int) {
    let io = Wire { fd };
    while let Some((cid, cmd, data)) = io.get() {
        match cmd {
            0x86 => {
                let mut a = data[..8.min(data.len())].to_vec();
                a.extend([1, 2, 3, 4 + t as u8, 2, 5, 4, 3, 0x04 | 0x08]);
                if !io.put(&cid, 0x86, &a) {
                    return;
                }
            }
            0x90 => {
                let c = data.first().copied().unwrap_or(0);
                let m = if data.len() > 1 { C::parse(&data[1..]).unwrap_or(C::Nil) } else { C::M(vec![]) };
                // several tokens blink: the one nobody touches goes on until told to stop
                let (waits, several) = {
                    let g = w.l();
                    (g.toks[t].waits(c, &m), g.toks.iter().filter(|x| x.plugged).count() > 1)
                };
                if waits && several {
                    let mut cancelled = false;
                    for _ in 0..3000 {
                        if !io.put(&cid, 0xbb, &[2]) {
                            return;
                        }
                        if io.ready(15) {
                            match io.get() {
                                Some((_, 0x91, _)) => {
                                    cancelled = true;
                                    break;
                                }
                                Some(_) => {}
                                None => return,
                            }
                        }
                    }
                    let mut g = w.l();
                    let st = if cancelled { 0x2d } else { g.toks[t].refusal };
                    g.log.push(FCmd { tok: t + 1, k: if c == 1 { "blink" } else { "select" }, st, heard: true, auth: "none", ..Default::default() });
                    drop(g);
                    if !io.put(&cid, 0x90, &[st]) {
                        return;
                    }
                    continue;
                }
                let ans = {
                    let mut g = w.l();
                    let fault = match &mut g.fault {
                        Some((n, f)) if c != 4 => {
                            if *n == 0 {
                                let f = *f;
                                g.fault = None;
                                g.hit = true;
                                Some(f)
                            } else {
                                *n -= 1;
                                None
                            }
                        }
                        _ => None,
                    };
                    if fault == Some(Fault::Before) {
                        g.toks[t].plugged = false;
                        return;
                    }
                    // a token that refuses does nothing else
                    let mut shadow = g.toks[t].clone();
                    let refused = matches!(fault, Some(Fault::Say(_)));
                    let (mut r, mut a) = if refused { shadow.exec(c, &m) } else { g.toks[t].exec(c, &m) };
                    r.tok = t + 1;
                    r.heard = fault.is_none();
                    match fault {
                        Some(Fault::After) => {
                            g.log.push(r);
                            g.toks[t].plugged = false;
                            g.toks[t].grant = None;
                            return;
                        }
                        Some(Fault::Say(s)) => {
                            r.st = s;
                            (r.ad, r.sig, r.raw, r.x5c, r.fmt) = Default::default();
                            r.heard = true;
                            r.said = true;
                            a = vec![s];
                        }
                        Some(Fault::Garbage) => {
                            let k = a.len() / 2;
                            r.heard = a.len() < 2;
                            a.truncate(k.max(1));
                        }
                        _ => {}
                    }
                    if c != 4 {
                        g.log.push(r);
                    }
                    a
                };
                if (c == 1 || c == 2) && !io.put(&cid, 0xbb, &[2]) {
                    return;
                }
                if !io.put(&cid, 0x90, &ans) {
                    return;
                }
            }
            0x91 => {}
            _ => {
                if !io.put(&cid, 0xbf, &[1]) {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- system functions
unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let mut r = n;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == 318 && b == 32 {
        // 32 random bytes for the thread that makes the call
        if let Some(v) = ARMED.with(|x| x.get()) {
            std::ptr::copy_nonoverlapping(v.as_ptr(), a as *mut u8, 32);
            return 32;
        }
    }
    raw6(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    const DESC: [u8; 34] = [
        0x06, 0xd0, 0xf1, 0x09, 0x01, 0xa1, 0x01, 0x09, 0x20, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95, 0x40, 0x81, 0x02, 0x09, 0x21, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95,
        0x40, 0x91, 0x02, 0xc0,
    ];
    match req as u32 {
        2147764225 => {
            *(arg as *mut c_int) = DESC.len() as c_int;
            0
        }
        2416199682 => {
            std::ptr::copy_nonoverlapping(DESC.as_ptr(), (arg as *mut u8).add(4), DESC.len());
            0
        }
        _ => raw6(16, fd as c_long, req as c_long, arg as c_long, 0, 0, 0) as c_int,
    }
}
/// a token that is gone does not read as an end of file
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let r = raw6(0, fd as c_long, buf as c_long, n as c_long, 0, 0, 0) as isize;
    if r == 0 && n > 0 {
        let (mut ty, mut len): (c_int, u32) = (0, 4);
        let e = *__errno_location();
        // SOL_SOCKET, SO_TYPE; the only sequenced-packet sockets are the emulated tokens
        if raw6(55, fd as c_long, 1, 3, &mut ty as *mut c_int as c_long, &mut len as *mut u32 as c_long, 0) == 0 && ty == 5 {
            *__errno_location() = 5;
            return -1;
        }
        *__errno_location() = e;
    }
    r
}
const NODE: &str = "/fido-emulated/hidraw";
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Ok(p) = CStr::from_ptr(path).to_str() {
        if let Some(k) = p.strip_prefix(NODE).and_then(|x| x.parse::<usize>().ok()) {
            if let Some(w) = here() {
                if w.l().toks.get(k).map(|t| t.plugged).unwrap_or(false) {
                    let mut s = [0; 2];
                    // local, sequenced packets, close on exec
                    if socketpair(1, 5 | 0o2000000, 0, s.as_mut_ptr()) == 0 {
                        std::thread::spawn(move || serve(w, k, s[1]));
                        return s[0];
                    }
                }
            }
            *__errno_location() = 2;
            return -1;
        }
    }
    raw6(257, -100, path as c_long, flags as c_long, mode as c_long, 0, 0) as c_int
}
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Born {
    f: Start,
    arg: *mut c_void,
    world: usize,
}
extern "C" fn born(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Born) };
    HERE.with(|h| h.set(b.world));
    (b.f)(b.arg)
}
/// threads belong to the world of their maker
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut c_void, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut r = REAL.load(std::sync::atomic::Ordering::Relaxed);
    if r == 0 {
        r = dlsym(-1isize as *mut c_void, c"pthread_create".as_ptr()) as usize;
        REAL.store(r, std::sync::atomic::Ordering::Relaxed);
    }
    let real: unsafe extern "C" fn(*mut c_void, *const c_void, Start, *mut c_void) -> c_int = std::mem::transmute(r);
    let b = Box::into_raw(Box::new(Born { f, arg, world: HERE.with(|h| h.get()) }));
    let rc = real(t, attr, born, b as *mut c_void);
    if rc != 0 {
        drop(Box::from_raw(b));
    }
    rc
}

// ---------------------------------------------------------------- udev
struct Entry {
    name: CString,
    next: *mut Entry,
}
struct Enum {
    all: Vec<Box<Entry>>,
}
struct Dev {
    node: CString,
    sys: CString,
}
static DUMMY: u8 = 0;
fn dummy() -> *mut c_void {
    &DUMMY as *const u8 as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_new() -> *mut c_void {
    dummy()
}
#[no_mangle]
pub extern "C" fn udev_ref(u: *mut c_void) -> *mut c_void {
    u
}
#[no_mangle]
pub extern "C" fn udev_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_enumerate_new(_: *mut c_void) -> *mut c_void {
    Box::into_raw(Box::new(Enum { all: vec![] })) as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_enumerate_add_match_subsystem(_: *mut c_void, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_scan_devices(e: *mut c_void) -> c_int {
    let e = &mut *(e as *mut Enum);
    e.all.clear();
    if let Some(w) = here() {
        for (i, t) in w.l().toks.iter().enumerate() {
            if t.plugged {
                e.all.push(Box::new(Entry { name: CString::new(format!("/sys/{i}")).unwrap(), next: std::ptr::null_mut() }));
            }
        }
    }
    for i in (1..e.all.len()).rev() {
        let n: *mut Entry = &mut *e.all[i];
        e.all[i - 1].next = n;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_get_list_entry(e: *mut c_void) -> *mut c_void {
    let e = &mut *(e as *mut Enum);
    e.all.first_mut().map(|x| &mut **x as *mut Entry as *mut c_void).unwrap_or(std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_unref(e: *mut c_void) -> *mut c_void {
    drop(Box::from_raw(e as *mut Enum));
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_next(e: *mut c_void) -> *mut c_void {
    (*(e as *mut Entry)).next as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_name(e: *mut c_void) -> *const c_char {
    (*(e as *mut Entry)).name.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_value(_: *mut c_void) -> *const c_char {
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_new_from_syspath(_: *mut c_void, p: *const c_char) -> *mut c_void {
    let sys = CStr::from_ptr(p).to_owned();
    let k = sys.to_str().unwrap_or("").trim_start_matches("/sys/").to_string();
    Box::into_raw(Box::new(Dev { node: CString::new(format!("{NODE}{k}")).unwrap(), sys })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_ref(d: *mut c_void) -> *mut c_void {
    d
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_unref(d: *mut c_void) -> *mut c_void {
    drop(Box::from_raw(d as *mut Dev));
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_devnode(d: *mut c_void) -> *const c_char {
    (*(d as *mut Dev)).node.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_syspath(d: *mut c_void) -> *const c_char {
    (*(d as *mut Dev)).sys.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_sysattr_value(_: *mut c_void, _: *const c_char) -> *const c_char {
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_action(_: *mut c_void) -> *const c_char {
    std::ptr::null()
}
struct Mon {
    fds: [c_int; 2],
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_new_from_netlink(_: *mut c_void, _: *const c_char) -> *mut c_void {
    let mut fds = [0; 2];
    if socketpair(1, 5 | 0o2000000, 0, fds.as_mut_ptr()) != 0 {
        return std::ptr::null_mut();
    }
    Box::into_raw(Box::new(Mon { fds })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_filter_add_match_subsystem_devtype(_: *mut c_void, _: *const c_char, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_enable_receiving(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_get_fd(m: *mut c_void) -> c_int {
    (*(m as *mut Mon)).fds[0]
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_receive_device(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_monitor_unref(m: *mut c_void) -> *mut c_void {
    let m = Box::from_raw(m as *mut Mon);
    close(m.fds[0]);
    close(m.fds[1]);
    std::ptr::null_mut()
}
