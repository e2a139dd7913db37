//! Emulated YubiKeys: the smart card service (PC/SC) is replaced by a world of
//! tokens that live in the calling thread.  What the library makes them do is
//! recorded command by command.
use crate::keys::{fx, pad, EcKey, RsaKey};
use crate::p_fido::{der, oid, seq, uint};
use des::cipher::{generic_array::GenericArray, BlockDecrypt, BlockEncrypt, KeyInit};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::raw::{c_char, c_long, c_ulong, c_void};

#[derive(Clone)]
pub enum Sec {
    Ec(EcKey),
    Rsa(RsaKey),
}
#[derive(Clone)]
pub struct Key {
    pub alg: u8,
    pub sec: Sec,
    pub pinp: u8,
    pub touchp: u8,
    pub made: bool,
}
impl Key {
    /// the bits of the subject public key
    pub fn bits(&self) -> Vec<u8> {
        match &self.sec {
            Sec::Ec(e) => e.q.clone(),
            Sec::Rsa(x) => seq(&[uint(&x.n), uint(&x.e)]),
        }
    }
}
#[derive(Clone, Default)]
pub struct Card {
    pub serial: u32,
    pub ver: [u8; 3],
    pub pin: Vec<u8>,
    pub tries: u8,
    pub mgm: [u8; 24],
    pub verified: bool,
    pub fresh: bool,
    pub authed: bool,
    /// somebody touches it when it blinks
    pub touch: bool,
    /// selecting the application again leaves the security status alone
    pub keep: bool,
    pub plugged: bool,
    pub gen: u32,
    pub keys: BTreeMap<u8, Key>,
    pub certs: BTreeMap<u8, Vec<u8>>,
    pub yk_app: bool,
    pub chain: Vec<u8>,
    pub pending: Vec<u8>,
    pub chal: Option<[u8; 8]>,
    /// keys it will make, in this order
    pub pool256: Vec<EcKey>,
    pub pool384: Vec<EcKey>,
    pub poolrsa: Vec<RsaKey>,
    pub nonce: u64,
}
#[derive(Clone, Debug)]
pub struct Cmd {
    pub card: u32,
    pub k: &'static str,
    pub ok: bool,
    pub slot: u8,
    pub alg: u8,
    pub pinp: u8,
    pub touchp: u8,
    /// what was sent
    pub data: Vec<u8>,
    /// what came back
    pub out: Vec<u8>,
}
struct Handle {
    card: usize,
    gen: u32,
    reset: bool,
}
#[derive(Default)]
pub struct World {
    pub cards: Vec<Card>,
    handles: BTreeMap<i64, Handle>,
    next: i64,
    pub log: Vec<Cmd>,
    /// the connection breaks at this many commands from now
    pub fault: Option<usize>,
    /// when it breaks: the answer gets lost, not the command
    pub late: bool,
    /// it breaks at the n-th command (from 1) that uses or changes something
    pub fault_at: Option<usize>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn fresh_world(cards: Vec<Card>) {
    with(|w| *w = World { cards, next: 1, ..World::default() });
}
pub fn take_log() -> Vec<Cmd> {
    with(|w| std::mem::take(&mut w.log))
}

/// commands that use or change what is on a token
pub const EFFECTS: [&str; 7] = ["verify", "auth", "gen", "sign", "put", "attest", "other"];
pub const SLOTS: [u8; 25] = [
    0x9a, 0x9c, 0x9d, 0x9e, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0xf9,
];
fn obj_slot(id: &[u8]) -> Option<u8> {
    match id {
        [0x5f, 0xc1, 0x05] => Some(0x9a),
        [0x5f, 0xc1, 0x0a] => Some(0x9c),
        [0x5f, 0xc1, 0x0b] => Some(0x9d),
        [0x5f, 0xc1, 0x01] => Some(0x9e),
        [0x5f, 0xff, 0x01] => Some(0xf9),
        [0x5f, 0xc1, x] if (0x0d..=0x20).contains(x) => Some(x - 0x0d + 0x82),
        _ => None,
    }
}
fn tlv(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let t = *b.first()?;
    let l = *b.get(1)?;
    let (n, o) = match l {
        0x81 => (*b.get(2)? as usize, 3),
        0x82 => (u16::from_be_bytes([*b.get(2)?, *b.get(3)?]) as usize, 4),
        x if x < 0x80 => (x as usize, 2),
        _ => return None,
    };
    Some((t, b.get(o..o + n)?, b.get(o + n..)?))
}
fn des3(k: &[u8; 24], b: &[u8; 8], enc: bool) -> [u8; 8] {
    let c = des::TdesEde3::new(GenericArray::from_slice(k));
    let mut x = *GenericArray::from_slice(b);
    if enc {
        c.encrypt_block(&mut x)
    } else {
        c.decrypt_block(&mut x)
    }
    x.into()
}
/// ECDSA over a digest as the card does it
pub fn ec_sign(e: &EcKey, digest: &[u8]) -> Vec<u8> {
    if e.curve == "nistp256" {
        use p256::ecdsa::signature::hazmat::PrehashSigner;
        let k = p256::ecdsa::SigningKey::from_bytes(&pad(&e.d, 32)).unwrap();
        let s: p256::ecdsa::Signature = k.sign_prehash(&pad(digest, 32)).unwrap();
        s.to_der().as_bytes().to_vec()
    } else {
        use p384::ecdsa::signature::hazmat::PrehashSigner;
        let k = p384::ecdsa::SigningKey::from_bytes(&pad(&e.d, 48)).unwrap();
        let s: p384::ecdsa::Signature = k.sign_prehash(&pad(digest, 48)).unwrap();
        s.to_der().as_bytes().to_vec()
    }
}
impl Card {
    fn clear(&mut self) {
        self.verified = false;
        self.fresh = false;
        self.authed = false;
        self.chain.clear();
        self.pending.clear();
        self.chal = None;
    }
    fn pin_policy(&self, slot: u8, p: u8) -> u8 {
        match (p, slot) {
            (0, 0x9c) => 3,
            (0, 0x9e) => 1,
            (0, _) => 2,
            (x, _) => x,
        }
    }
    fn attestation(&self, slot: u8) -> Option<Vec<u8>> {
        let k = self.keys.get(&slot)?;
        if !k.made {
            return None;
        }
        let ca = &fx().ec.iter().find(|e| e.curve == "nistp256").unwrap().clone();
        let p = match &k.sec {
            Sec::Ec(e) if e.curve == "nistp256" => oid(&[1, 2, 840, 10045, 3, 1, 7]),
            Sec::Ec(_) => oid(&[1, 3, 132, 0, 34]),
            Sec::Rsa(_) => der(5, &[]),
        };
        let a = if matches!(k.sec, Sec::Rsa(_)) { oid(&[1, 2, 840, 113549, 1, 1, 1]) } else { oid(&[1, 2, 840, 10045, 2, 1]) };
        let spki = seq(&[seq(&[a, p]), der(3, &[&[0][..], &k.bits()].concat())]);
        let name = |t: &str| seq(&[der(0x31, &seq(&[oid(&[2, 5, 4, 3]), der(0x0c, t.as_bytes())]))]);
        let alg = seq(&[oid(&[1, 2, 840, 10045, 4, 3, 2])]);
        let x = |o: &[u64], v: &[u8]| seq(&[oid(o), der(4, v)]);
        let exts = seq(&[
            x(&[1, 3, 6, 1, 4, 1, 41482, 3, 3], &self.ver),
            x(&[1, 3, 6, 1, 4, 1, 41482, 3, 7], &uint(&self.serial.to_be_bytes())),
            x(&[1, 3, 6, 1, 4, 1, 41482, 3, 8], &[self.pin_policy(slot, k.pinp), k.touchp.max(1)]),
        ]);
        let t = seq(&[der(0x17, b"160314000000Z"), der(0x18, b"20520417000000Z")]);
        let tbs = seq(&[der(0xa0, &der(2, &[2])), uint(&[slot, 1]), alg.clone(), name("Yubico PIV Attestation"), t, name(&format!("YubiKey PIV Attestation {slot:02x}")), spki, der(0xa3, &exts)]);
        let sig = ec_sign(ca, &crate::keys::sha("sha256", &tbs));
        Some(seq(&[tbs, alg, der(3, &[&[0][..], &sig].concat())]))
    }
    /// one command with its whole data: (status, response), and what to record
    fn run(&mut self, ins: u8, p1: u8, p2: u8, data: &[u8], log: &mut Vec<Cmd>) -> (u16, Vec<u8>) {
        let mut c = Cmd { card: self.serial, k: "other", ok: false, slot: 0, alg: 0, pinp: 0, touchp: 0, data: vec![], out: vec![] };
        let (sw, out): (u16, Vec<u8>) = match ins {
            0xa4 => {
                c.k = "select";
                let piv = data.starts_with(&[0xa0, 0, 0, 3, 8]);
                let yk = data.starts_with(&[0xa0, 0, 0, 5, 0x27]);
                if piv || yk {
                    if yk || self.yk_app || !self.keep {
                        self.clear();
                    }
                    self.yk_app = yk;
                    c.slot = yk as u8;
                    (0x9000, vec![])
                } else {
                    (0x6a82, vec![])
                }
            }
            0x01 if self.yk_app => {
                c.k = "info";
                (0x9000, self.serial.to_be_bytes().to_vec())
            }
            _ if self.yk_app => (0x6d00, vec![]),
            0xfd => {
                c.k = "info";
                (0x9000, self.ver.to_vec())
            }
            0xf8 => {
                c.k = "info";
                (0x9000, self.serial.to_be_bytes().to_vec())
            }
            0x20 if p1 == 0 && p2 == 0x80 => {
                c.k = "verify";
                c.data = data.to_vec();
                if data.is_empty() {
                    if self.verified {
                        (0x9000, vec![])
                    } else {
                        (if self.tries == 0 { 0x6983 } else { 0x63c0 | self.tries as u16 }, vec![])
                    }
                } else if self.tries == 0 {
                    (0x6983, vec![])
                } else {
                    let mut want = self.pin.clone();
                    want.resize(8, 0xff);
                    if data == want {
                        self.verified = true;
                        self.fresh = true;
                        self.tries = 3;
                        (0x9000, vec![])
                    } else {
                        self.verified = false;
                        self.fresh = false;
                        self.tries -= 1;
                        (if self.tries == 0 { 0x6983 } else { 0x63c0 | self.tries as u16 }, vec![])
                    }
                }
            }
            0x87 if p1 == 3 && p2 == 0x9b => match tlv(data) {
                Some((0x7c, b, _)) if b.starts_with(&[0x80, 0x00]) => {
                    // witness: the host decrypts it
                    c.k = "info";
                    self.nonce = self.nonce.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let w = self.nonce.to_be_bytes();
                    self.chal = Some(w);
                    let e = des3(&self.mgm, &w, true);
                    (0x9000, [&[0x7c, 10, 0x80, 8][..], &e].concat())
                }
                Some((0x7c, b, _)) if b.len() == 20 && b[0] == 0x80 && b[10] == 0x81 => {
                    c.k = "auth";
                    let w = self.chal.take();
                    if w.map(|w| w == b[2..10]).unwrap_or(false) {
                        self.authed = true;
                        let e = des3(&self.mgm, b[12..20].try_into().unwrap(), true);
                        (0x9000, [&[0x7c, 10, 0x82, 8][..], &e].concat())
                    } else {
                        self.authed = false;
                        (0x6982, vec![])
                    }
                }
                _ => (0x6a80, vec![]),
            },
            0x87 => {
                c.k = "sign";
                c.slot = p2;
                c.alg = p1;
                let input = tlv(data).filter(|x| x.0 == 0x7c).and_then(|x| {
                    let (t, v, rest) = tlv(x.1)?;
                    if t != 0x82 || !v.is_empty() {
                        return None;
                    }
                    tlv(rest).filter(|y| y.0 == 0x81).map(|y| y.1.to_vec())
                });
                match input {
                    None => {
                        c.k = "other";
                        (0x6a80, vec![])
                    }
                    Some(d) => {
                        c.data = d.clone();
                        match self.keys.get(&p2).cloned() {
                            Some(k) if k.alg == p1 => {
                                let pol = self.pin_policy(p2, k.pinp);
                                let pin_ok = pol == 1 || pol == 2 && self.verified || pol == 3 && self.verified && self.fresh;
                                let touch_ok = k.touchp < 2 || self.touch;
                                let size_ok = match p1 {
                                    0x11 => d.len() <= 32,
                                    0x14 => d.len() <= 48,
                                    _ => d.len() == 256,
                                };
                                if !pin_ok || !touch_ok {
                                    (0x6982, vec![])
                                } else if !size_ok {
                                    (0x6a80, vec![])
                                } else {
                                    self.fresh = false;
                                    let sig = match &k.sec {
                                        Sec::Ec(e) => ec_sign(e, &d),
                                        Sec::Rsa(x) => {
                                            use num_bigint::BigUint;
                                            let m = BigUint::from_bytes_be(&d).modpow(&BigUint::from_bytes_be(&x.d), &BigUint::from_bytes_be(&x.n));
                                            pad(&m.to_bytes_be(), 256)
                                        }
                                    };
                                    c.out = sig.clone();
                                    (0x9000, der(0x7c, &der(0x82, &sig)))
                                }
                            }
                            Some(_) => (0x6a80, vec![]),
                            None => (0x6a80, vec![]),
                        }
                    }
                }
            }
            0x47 => {
                c.k = "gen";
                c.slot = p2;
                let mut ok = false;
                if let Some((0xac, mut b, _)) = tlv(data) {
                    ok = true;
                    while let Some((t, v, rest)) = tlv(b) {
                        match (t, v) {
                            (0x80, [a]) => c.alg = *a,
                            (0xaa, [a]) => c.pinp = *a,
                            (0xab, [a]) => c.touchp = *a,
                            _ => ok = false,
                        }
                        b = rest;
                    }
                }
                let sec = match c.alg {
                    0x11 => self.pool256.pop().map(Sec::Ec),
                    0x14 => self.pool384.pop().map(Sec::Ec),
                    0x07 => self.poolrsa.pop().map(Sec::Rsa),
                    _ => None,
                };
                if !self.authed {
                    (0x6982, vec![])
                } else if !ok || p1 != 0 || !SLOTS.contains(&p2) || sec.is_none() {
                    (0x6a80, vec![])
                } else {
                    let k = Key { alg: c.alg, sec: sec.unwrap(), pinp: c.pinp, touchp: c.touchp, made: true };
                    c.out = k.bits();
                    let body = match &k.sec {
                        Sec::Ec(e) => der(0x86, &e.q),
                        Sec::Rsa(x) => [der(0x81, &pad(&x.n, 256)), der(0x82, &x.e)].concat(),
                    };
                    self.keys.insert(p2, k);
                    (0x9000, [vec![0x7f], der(0x49, &body)].concat())
                }
            }
            0xf9 => {
                c.k = "attest";
                c.slot = p1;
                match self.attestation(p1) {
                    Some(a) if p2 == 0 => {
                        c.out = a.clone();
                        (0x9000, a)
                    }
                    _ => (0x6a80, vec![]),
                }
            }
            0xcb => {
                c.k = "get";
                let id = tlv(data).filter(|x| x.0 == 0x5c).map(|x| x.1.to_vec()).unwrap_or_default();
                c.slot = obj_slot(&id).unwrap_or(0);
                match obj_slot(&id).and_then(|s| self.certs.get(&s)) {
                    Some(x) => (0x9000, der(0x53, &[der(0x70, x), der(0x71, &[0]), der(0xfe, &[])].concat())),
                    None => (0x6a82, vec![]),
                }
            }
            0xdb => {
                c.k = "put";
                let id = tlv(data).filter(|x| x.0 == 0x5c);
                let slot = id.and_then(|x| obj_slot(x.1));
                let cert = id.and_then(|x| tlv(x.2)).filter(|x| x.0 == 0x53 && x.2.is_empty()).and_then(|x| {
                    let (t, v, rest) = tlv(x.1)?;
                    (t == 0x70 && rest == [0x71, 1, 0, 0xfe, 0]).then(|| v.to_vec())
                });
                match (slot, cert) {
                    (Some(s), Some(v)) => {
                        c.slot = s;
                        c.data = v.clone();
                        if self.authed {
                            self.certs.insert(s, v);
                            (0x9000, vec![])
                        } else {
                            (0x6982, vec![])
                        }
                    }
                    _ => {
                        c.k = "other";
                        (0x6a80, vec![])
                    }
                }
            }
            _ => (0x6d00, vec![]),
        };
        c.ok = sw == 0x9000;
        log.push(c);
        (sw, out)
    }
    fn apdu(&mut self, b: &[u8], log: &mut Vec<Cmd>) -> Vec<u8> {
        let answer = |v: &[u8], sw: u16| [v, &sw.to_be_bytes()[..]].concat();
        if b.len() < 4 {
            return answer(&[], 0x6700);
        }
        let data = if b.len() > 5 { &b[5..] } else { &[] };
        if b[0] == 0x10 {
            self.chain.extend_from_slice(data);
            return answer(&[], 0x9000);
        }
        if b[1] != 0xc0 {
            self.pending.clear();
            let mut all = std::mem::take(&mut self.chain);
            all.extend_from_slice(data);
            let (sw, out) = self.run(b[1], b[2], b[3], &all, log);
            if sw != 0x9000 {
                return answer(&[], sw);
            }
            self.pending = out;
        }
        let n = self.pending.len().min(255);
        let part: Vec<u8> = self.pending.drain(..n).collect();
        let left = self.pending.len();
        answer(&part, if left == 0 { 0x9000 } else { 0x6100 | left.min(255) as u16 })
    }
}
impl World {
    pub fn unplug(&mut self, serial: u32) {
        for c in self.cards.iter_mut().filter(|c| c.serial == serial) {
            c.plugged = false;
            c.gen += 1;
            c.clear();
        }
    }
    pub fn plug(&mut self, serial: u32) {
        for c in self.cards.iter_mut().filter(|c| c.serial == serial) {
            c.plugged = true;
        }
    }
    fn readers(&self) -> Vec<(usize, String)> {
        self.cards.iter().enumerate().filter(|(_, c)| c.plugged).map(|(i, _)| (i, format!("Yubico YubiKey OTP+FIDO+CCID {i:02} 00"))).collect()
    }
    fn reset(&mut self, card: usize, but: i64) {
        let c = &mut self.cards[card];
        c.clear();
        c.yk_app = false;
        let (g, serial) = (c.gen, c.serial);
        self.log.push(Cmd { card: serial, k: "reset", ok: true, slot: 0, alg: 0, pinp: 0, touchp: 0, data: vec![], out: vec![] });
        for (k, h) in self.handles.iter_mut() {
            if h.card == card && h.gen == g && *k != but {
                h.reset = true;
            }
        }
    }
    fn fault(&mut self, card: usize) {
        let serial = self.cards[card].serial;
        self.log.push(Cmd { card: serial, k: "fault", ok: false, slot: 0, alg: 0, pinp: 0, touchp: 0, data: vec![], out: vec![] });
    }
    /// the card behind a handle, unless the connection is broken
    fn reach(&mut self, h: i64) -> Result<usize, c_long> {
        let Some(x) = self.handles.get(&h) else { return Err(BAD_HANDLE) };
        let (card, gen, reset) = (x.card, x.gen, x.reset);
        if self.cards[card].gen != gen || !self.cards[card].plugged {
            self.fault(card);
            return Err(REMOVED);
        }
        if reset {
            self.fault(card);
            return Err(RESET);
        }
        Ok(card)
    }
}
const OK: c_long = 0;
const BAD_HANDLE: c_long = 0x8010_0003;
const SMALL: c_long = 0x8010_0008;
const NO_READER: c_long = 0x8010_002e;
const UNKNOWN: c_long = 0x8010_0009;
const UNAVAILABLE: c_long = 0x8010_0017;
const RESET: c_long = 0x8010_0068;
const REMOVED: c_long = 0x8010_0069;
const LOST: c_long = 0x8010_002f;

#[no_mangle]
pub unsafe extern "C" fn SCardEstablishContext(_: c_ulong, _: *const c_void, _: *const c_void, ctx: *mut c_long) -> c_long {
    *ctx = 77;
    OK
}
#[no_mangle]
pub extern "C" fn SCardReleaseContext(_: c_long) -> c_long {
    OK
}
#[no_mangle]
pub extern "C" fn SCardIsValidContext(_: c_long) -> c_long {
    OK
}
#[no_mangle]
pub unsafe extern "C" fn SCardListReaders(_: c_long, _: *const c_char, out: *mut c_char, n: *mut c_ulong) -> c_long {
    with(|w| {
        let rs = w.readers();
        if rs.is_empty() {
            return NO_READER;
        }
        let mut b = vec![];
        for (_, r) in rs {
            b.extend_from_slice(r.as_bytes());
            b.push(0);
        }
        b.push(0);
        if !out.is_null() {
            if (*n as usize) < b.len() {
                *n = b.len() as c_ulong;
                return SMALL;
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), out as *mut u8, b.len());
        }
        *n = b.len() as c_ulong;
        OK
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardConnect(_: c_long, name: *const c_char, _: c_ulong, _: c_ulong, h: *mut c_long, proto: *mut c_ulong) -> c_long {
    let name = std::ffi::CStr::from_ptr(name).to_string_lossy().to_string();
    with(|w| match w.readers().into_iter().find(|x| x.1 == name) {
        Some((i, _)) => {
            w.next += 1;
            let k = w.next;
            let gen = w.cards[i].gen;
            w.handles.insert(k, Handle { card: i, gen, reset: false });
            *h = k;
            *proto = 2;
            OK
        }
        None => UNKNOWN,
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardReconnect(h: c_long, _: c_ulong, _: c_ulong, init: c_ulong, proto: *mut c_ulong) -> c_long {
    with(|w| {
        let Some(x) = w.handles.get_mut(&h) else { return BAD_HANDLE };
        let card = x.card;
        let gen = x.gen;
        if w.cards[card].gen != gen || !w.cards[card].plugged {
            w.fault(card);
            return UNAVAILABLE;
        }
        w.handles.get_mut(&h).unwrap().reset = false;
        if init != 0 {
            w.reset(card, h);
        }
        *proto = 2;
        OK
    })
}
#[no_mangle]
pub extern "C" fn SCardDisconnect(h: c_long, how: c_ulong) -> c_long {
    with(|w| {
        let Some(x) = w.handles.remove(&h) else { return BAD_HANDLE };
        if how != 0 && w.cards[x.card].gen == x.gen && w.cards[x.card].plugged {
            w.reset(x.card, 0);
        }
        OK
    })
}
#[no_mangle]
pub extern "C" fn SCardBeginTransaction(h: c_long) -> c_long {
    with(|w| w.reach(h).err().unwrap_or(OK))
}
#[no_mangle]
pub extern "C" fn SCardEndTransaction(h: c_long, _: c_ulong) -> c_long {
    with(|w| if w.handles.contains_key(&h) { OK } else { BAD_HANDLE })
}
#[no_mangle]
pub unsafe extern "C" fn SCardTransmit(h: c_long, _: *const c_void, b: *const u8, n: c_ulong, _: *mut c_void, out: *mut u8, m: *mut c_ulong) -> c_long {
    let cmd = std::slice::from_raw_parts(b, n as usize).to_vec();
    with(|w| {
        let card = match w.reach(h) {
            Ok(c) => c,
            Err(e) => return e,
        };
        if let Some(k) = w.fault {
            if k == 0 {
                w.fault = None;
                if w.late {
                    let World { cards, log, .. } = w;
                    cards[card].apdu(&cmd, log);
                }
                w.fault(card);
                w.cards[card].chain.clear();
                w.cards[card].pending.clear();
                return LOST;
            }
            w.fault = Some(k - 1);
        }
        let seen = w.log.len();
        let was = w.fault_at.map(|_| w.cards[card].clone());
        let World { cards, log, .. } = w;
        let v = cards[card].apdu(&cmd, log);
        if let (Some(k), Some(was)) = (w.fault_at, was) {
            if w.log[seen..].iter().any(|c| EFFECTS.contains(&c.k)) {
                w.fault_at = if k > 1 { Some(k - 1) } else { None };
                if k == 1 {
                    if !w.late {
                        w.cards[card] = was;
                        w.log.truncate(seen);
                    }
                    w.fault(card);
                    w.cards[card].chain.clear();
                    w.cards[card].pending.clear();
                    return LOST;
                }
            }
        }
        if v.len() > *m as usize {
            return SMALL;
        }
        std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len());
        *m = v.len() as c_ulong;
        OK
    })
}
#[no_mangle]
pub extern "C" fn SCardCancel(_: c_long) -> c_long {
    OK
}
