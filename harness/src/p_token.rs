//! PIV tokens: sessions with emulated YubiKeys.
use crate::api::{pub_j, pub_m};
use crate::card::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::p_fido::{issue_x, spki_of};
use crate::rng::Rng;
use sshcerts::yubikey::piv::{AlgorithmId, Error, PinPolicy, RetiredSlotId, SlotId, TouchPolicy, Yubikey};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yubikey::certificate::PublicKeyInfo;

pub fn alg_of(a: u8) -> AlgorithmId {
    match a {
        0x11 => AlgorithmId::EccP256,
        0x14 => AlgorithmId::EccP384,
        0x06 => AlgorithmId::Rsa1024,
        _ => AlgorithmId::Rsa2048,
    }
}
fn alg_no(a: AlgorithmId) -> u8 {
    match a {
        AlgorithmId::EccP256 => 0x11,
        AlgorithmId::EccP384 => 0x14,
        AlgorithmId::Rsa1024 => 0x06,
        AlgorithmId::Rsa2048 => 0x07,
    }
}
pub fn slot_of(s: u8) -> SlotId {
    match s {
        0x9a => SlotId::Authentication,
        0x9c => SlotId::Signature,
        0x9d => SlotId::KeyManagement,
        0x9e => SlotId::CardAuthentication,
        0xf9 => SlotId::Attestation,
        x => SlotId::Retired(RetiredSlotId::try_from(x).unwrap()),
    }
}
fn pinp(p: u8) -> PinPolicy {
    match p {
        0 => PinPolicy::Default,
        1 => PinPolicy::Never,
        2 => PinPolicy::Once,
        _ => PinPolicy::Always,
    }
}
fn touchp(p: u8) -> TouchPolicy {
    match p {
        0 => TouchPolicy::Default,
        1 => TouchPolicy::Never,
        2 => TouchPolicy::Always,
        _ => TouchPolicy::Cached,
    }
}
fn ek(e: &Error) -> &'static str {
    match e {
        Error::Unprovisioned => "Unprovisioned",
        Error::WrongKeyType => "WrongKeyType",
        Error::Unsupported => "Unsupported",
        Error::InvalidManagementKey => "InvalidManagementKey",
        Error::ParsingError => "ParsingError",
        Error::NoSuchYubikey => "NoSuchYubikey",
        Error::InternalYubiKeyError(_) => "Internal",
    }
}
/// what is asked of the library
#[derive(Clone, Debug)]
pub enum Ask {
    Open(u32),
    New,
    Reconnect,
    Unlock { pin: Vec<u8>, mgm: Vec<u8> },
    Provision { slot: u8, cn: String, alg: u8, touch: u8, pin: u8 },
    SignData { slot: u8, alg: u8, data: Vec<u8> },
    Signer { slot: u8, data: Vec<u8> },
    FetchPub(u8),
    KeyType(u8),
    FetchCert(u8),
    Subject(u8),
    Configured(u8),
    Write { slot: u8, der: Vec<u8> },
    Attest(u8),
    Csr { slot: u8, cn: String },
}
pub enum Val {
    Unit,
    Serial(u32),
    Bytes(Vec<u8>),
    Key(sshcerts::PublicKey),
    Alg(u8),
    Info(u8, Vec<u8>),
    Text(String),
}
fn serial_j(s: u32) -> String {
    arr(&s.to_be_bytes())
}
pub fn card_no(s: u32) -> usize {
    with(|w| w.cards.iter().position(|c| c.serial == s).map(|i| i + 1).unwrap_or(0))
}
fn cmds_j(log: &[Cmd]) -> String {
    let v: Vec<String> = log
        .iter()
        .map(|c| {
            format!(
                "{{\"card\":{},\"k\":\"{}\",\"ok\":{},\"slot\":{},\"alg\":{},\"pinp\":{},\"touchp\":{},\"data\":{},\"out\":{}}}",
                card_no(c.card),
                c.k,
                c.ok,
                c.slot,
                c.alg,
                c.pinp,
                c.touchp,
                arr(&c.data),
                arr(&c.out)
            )
        })
        .collect();
    format!("[{}]", v.join(","))
}
fn key_j(k: &Key) -> String {
    format!("{{\"alg\":{},\"bits\":{},\"pinp\":{},\"touchp\":{},\"made\":{}}}", k.alg, arr(&k.bits()), k.pinp, k.touchp, k.made)
}
pub struct Desk {
    /// connections: token they are to, and the object
    pub hs: Vec<(u32, Option<Yubikey>)>,
}
impl Drop for Desk {
    fn drop(&mut self) {
        self.hs.clear();
    }
}
impl Desk {
    pub fn new(s: &mut Sess, cards: Vec<Card>) -> Desk {
        let v: Vec<String> = cards
            .iter()
            .map(|c| {
                let ks: Vec<String> = c.keys.iter().map(|(k, x)| format!("[{k},{}]", key_j(x))).collect();
                let cs: Vec<String> = c.certs.iter().map(|(k, x)| format!("[{k},{}]", arr(x))).collect();
                format!(
                    "{{\"serial\":{},\"pin\":{},\"tries\":{},\"mgm\":{},\"touch\":{},\"keep\":{},\"plugged\":{},\"keys\":[{}],\"certs\":[{}]}}",
                    serial_j(c.serial),
                    arr(&c.pin),
                    c.tries,
                    arr(&c.mgm),
                    c.touch,
                    c.keep,
                    c.plugged,
                    ks.join(","),
                    cs.join(",")
                )
            })
            .collect();
        s.push("tk_world", &[("h", "0".into()), ("cards", format!("[{}]", v.join(",")))]);
        fresh_world(cards);
        Desk { hs: vec![] }
    }
    pub fn env(&mut self, s: &mut Sess, a: &str, serial: u32, v: &[u8]) {
        with(|w| match a {
            "plug" => w.plug(serial),
            "unplug" => w.unplug(serial),
            "touch" => w.cards.iter_mut().filter(|c| c.serial == serial).for_each(|c| c.touch = v == [1]),
            _ => w.cards.iter_mut().filter(|c| c.serial == serial).for_each(|c| c.pin = v.to_vec()),
        });
        s.push("tk_env", &[("h", "0".into()), ("a", q(a)), ("card", card_no(serial).to_string()), ("v", arr(v))]);
    }
    pub fn drop_handle(&mut self, s: &mut Sess, h: usize) {
        take_log();
        self.hs[h].1 = None;
        let log = take_log();
        s.push("tk_drop", &[("h", "0".into()), ("k", (h + 1).to_string()), ("cmds", cmds_j(&log))]);
    }
    /// one call; returns whether it succeeded
    pub fn ask(&mut self, s: &mut Sess, h: usize, a: &Ask) -> Option<Val> {
        s.calls += 1;
        take_log();
        let before: Vec<Card> = with(|w| w.cards.clone());
        let mut f: Vec<(&str, String)> = vec![("h", "0".into())];
        let mut opened: Option<Yubikey> = None;
        let hs = &mut self.hs;
        type Out = Result<Val, Error>;
        let res: std::thread::Result<Out> = catch_unwind(AssertUnwindSafe(|| -> Out {
            Ok(match a {
                Ask::Open(sn) => {
                    let y = Yubikey::open(*sn)?;
                    let n: u32 = y.yk.serial().into();
                    opened = Some(y);
                    Val::Serial(n)
                }
                Ask::New => {
                    let y = Yubikey::new()?;
                    let n: u32 = y.yk.serial().into();
                    opened = Some(y);
                    Val::Serial(n)
                }
                _ => {
                    let y = hs[h].1.as_mut().unwrap();
                    match a {
                        Ask::Reconnect => {
                            y.reconnect()?;
                            Val::Unit
                        }
                        Ask::Unlock { pin, mgm } => {
                            y.unlock(pin, mgm)?;
                            Val::Unit
                        }
                        Ask::Provision { slot, cn, alg, touch, pin } => Val::Key(y.provision(&slot_of(*slot), cn, alg_of(*alg), touchp(*touch), pinp(*pin))?),
                        Ask::SignData { slot, alg, data } => Val::Bytes(y.sign_data(data, alg_of(*alg), &slot_of(*slot))?),
                        Ask::Signer { slot, data } => Val::Bytes(y.ssh_cert_signer(data, &slot_of(*slot))?),
                        Ask::FetchPub(x) => Val::Key(y.ssh_cert_fetch_pubkey(&slot_of(*x))?),
                        Ask::KeyType(x) => Val::Alg(alg_no(y.get_ssh_key_type(&slot_of(*x))?)),
                        Ask::FetchCert(x) => Val::Bytes(y.fetch_certificate(&slot_of(*x))?),
                        Ask::Subject(x) => Val::Text(y.fetch_subject(&slot_of(*x))?),
                        Ask::Configured(x) => match y.configured(&slot_of(*x))? {
                            PublicKeyInfo::EcP256(p) => Val::Info(0x11, p.as_bytes().to_vec()),
                            PublicKeyInfo::EcP384(p) => Val::Info(0x14, p.as_bytes().to_vec()),
                            PublicKeyInfo::Rsa { algorithm, .. } => Val::Info(alg_no(algorithm), vec![]),
                        },
                        Ask::Write { slot, der } => {
                            y.write_certificate(&slot_of(*slot), der)?;
                            Val::Unit
                        }
                        Ask::Attest(x) => Val::Bytes(y.fetch_attestation(&slot_of(*x))?),
                        Ask::Csr { slot, cn } => Val::Bytes(y.generate_csr(&slot_of(*slot), cn)?),
                        Ask::Open(_) | Ask::New => unreachable!(),
                    }
                }
            })
        }));
        let log = take_log();
        with(|w| {
            w.fault = None;
            w.fault_at = None;
        });
        // what the oracles know of it
        let mut k = h + 1;
        let name = match a {
            Ask::Open(sn) => {
                f.push(("serial", serial_j(*sn)));
                "open"
            }
            Ask::New => "new",
            Ask::Reconnect => "reconnect",
            Ask::Unlock { pin, mgm } => {
                f.push(("pin", arr(pin)));
                f.push(("mgm", arr(mgm)));
                "unlock"
            }
            Ask::Provision { slot, cn, alg, touch, pin } => {
                f.extend([("slot", slot.to_string()), ("cn", arr(cn.as_bytes())), ("alg", alg.to_string()), ("touchp", touch.to_string()), ("pinp", pin.to_string())]);
                for c in &log {
                    if c.k == "put" {
                        if let Some(t) = body(&c.data) {
                            s.hash("sha256", &t);
                        }
                    }
                }
                "provision"
            }
            Ask::SignData { slot, alg, data } => {
                f.extend([("slot", slot.to_string()), ("alg", alg.to_string()), ("data", arr(data))]);
                s.hash("sha256", data);
                s.hash("sha384", data);
                "sign_data"
            }
            Ask::Signer { slot, data } => {
                f.extend([("slot", slot.to_string()), ("data", arr(data))]);
                s.hash("sha256", data);
                s.hash("sha384", data);
                "signer"
            }
            Ask::FetchPub(x) => {
                f.push(("slot", x.to_string()));
                "fetch_pub"
            }
            Ask::KeyType(x) => {
                f.push(("slot", x.to_string()));
                "key_type"
            }
            Ask::FetchCert(x) => {
                f.push(("slot", x.to_string()));
                "fetch_cert"
            }
            Ask::Subject(x) => {
                f.push(("slot", x.to_string()));
                "subject"
            }
            Ask::Configured(x) => {
                f.push(("slot", x.to_string()));
                "configured"
            }
            Ask::Write { slot, der } => {
                f.extend([("slot", slot.to_string()), ("der", arr(der))]);
                "write"
            }
            Ask::Attest(x) => {
                f.push(("slot", x.to_string()));
                "attest"
            }
            Ask::Csr { slot, cn } => {
                f.extend([("slot", slot.to_string()), ("cn", arr(cn.as_bytes()))]);
                if let Ok(Ok(Val::Bytes(b))) = &res {
                    if let Some(t) = body(b) {
                        s.hash("sha256", &t);
                        s.hash("sha384", &t);
                    }
                }
                "csr"
            }
        };
        let (st, e) = match &res {
            Ok(Ok(_)) => ("ok", ""),
            Ok(Err(x)) => ("err", ek(x)),
            Err(_) => ("panic", ""),
        };
        if let Some(y) = opened {
            let n: u32 = y.yk.serial().into();
            self.hs.push((n, Some(y)));
            k = self.hs.len();
        }
        f.extend([("call", q(name)), ("k", k.to_string()), ("st", q(st)), ("ek", q(e)), ("cmds", cmds_j(&log))]);
        match &res {
            Ok(Ok(v)) => match v {
                Val::Unit => {}
                Val::Serial(n) => f.push(("out", serial_j(*n))),
                Val::Bytes(b) => f.push(("out", arr(b))),
                Val::Key(p) => f.push(("out", pub_j(p))),
                Val::Alg(x) => f.push(("out", x.to_string())),
                Val::Info(x, b) => f.extend([("out", x.to_string()), ("bits", arr(b))]),
                Val::Text(t) => f.push(("out", arr(t.as_bytes()))),
            },
            _ => {}
        }
        if let Ask::Reconnect = a {
            let n: u32 = self.hs[h].1.as_ref().unwrap().yk.serial().into();
            f.push(("out", serial_j(n)));
        }
        s.push("tk", &f);
        // a first look of our own
        let serial = if let Ask::Open(_) | Ask::New = a { 0 } else { self.hs[h].0 };
        let ok = looks_right(a, &before, serial, &log, st, &res);
        s.expect(ok);
        match res {
            Ok(Ok(v)) => Some(v),
            _ => None,
        }
    }
}
/// first element inside the outer sequence, whole
fn body(b: &[u8]) -> Option<Vec<u8>> {
    let at = |o: usize| -> Option<(usize, usize)> {
        let l = *b.get(o + 1)? as usize;
        let (n, k) = match l {
            0x81 => (*b.get(o + 2)? as usize, 3),
            0x82 => ((*b.get(o + 2)? as usize) << 8 | *b.get(o + 3)? as usize, 4),
            x if x < 0x80 => (x, 2),
            _ => return None,
        };
        Some((o + k, o + k + n))
    };
    let (s, _) = at(0)?;
    let (_, e) = at(s)?;
    b.get(s..e).map(|x| x.to_vec())
}
fn has(b: &[u8], x: &[u8]) -> bool {
    !x.is_empty() && b.windows(x.len()).any(|w| w == x)
}
/// every common name in it is that one
fn named(b: &[u8], cn: &str) -> bool {
    let o = [6u8, 3, 0x55, 4, 3];
    let mut n = 0;
    for i in 0..b.len().saturating_sub(6) {
        if b[i..].starts_with(&o) {
            n += 1;
            let l = b[i + 6] as usize;
            if b.get(i + 7..i + 7 + l) != Some(cn.as_bytes()) {
                return false;
            }
        }
    }
    n > 0
}
fn cert_key(c: &Card, slot: u8) -> Option<sshcerts::PublicKey> {
    // our own certificates: the key is in them
    let b = c.certs.get(&slot)?;
    for (o, n, kt, cv) in [
        (&[6u8, 8, 42, 134, 72, 206, 61, 3, 1, 7, 3, 66, 0, 4][..], 65, "ecdsa-sha2-nistp256", "nistp256"),
        (&[6u8, 5, 43, 129, 4, 0, 34, 3, 98, 0, 4][..], 97, "ecdsa-sha2-nistp384", "nistp384"),
    ] {
        if let Some(i) = b.windows(o.len()).position(|w| w == o) {
            let q = b.get(i + o.len() - 1..i + o.len() - 1 + n)?;
            let w = crate::wire::W::new().s(kt).s(cv).b(q).0;
            return sshcerts::PublicKey::from_bytes(&w).ok();
        }
    }
    None
}
fn looks_right(a: &Ask, before: &[Card], serial: u32, log: &[Cmd], st: &str, res: &std::thread::Result<Result<Val, Error>>) -> bool {
    if st == "panic" {
        return false;
    }
    let fault = log.iter().any(|c| c.k == "fault");
    let eff: Vec<&Cmd> = log.iter().filter(|c| EFFECTS.contains(&c.k)).collect();
    let card = before.iter().find(|c| c.serial == serial);
    let val = res.as_ref().ok().and_then(|x| x.as_ref().ok());
    let mine = |c: &&&Cmd| c.card == serial;
    if card.is_some() && !eff.iter().all(|c| mine(&c)) {
        return false;
    }
    let kinds: Vec<&str> = eff.iter().map(|c| c.k).collect();
    let fine = eff.iter().all(|c| c.ok);
    let run = |want: &[&str]| -> bool { kinds.len() <= want.len() && kinds == want[..kinds.len()] && (fault || kinds.len() == want.len() || !fine) };
    let slotted = |s: u8| eff.iter().all(|c| c.slot == s);
    let ok = st == "ok";
    match a {
        Ask::Open(sn) => {
            let there = before.iter().any(|c| c.plugged && c.serial == *sn);
            kinds.is_empty() && (ok == there || (fault && !ok)) && (!ok || matches!(val, Some(Val::Serial(n)) if n == sn))
        }
        Ask::New => {
            let one = before.iter().filter(|c| c.plugged).count() == 1;
            kinds.is_empty() && (ok == one || (fault && !ok))
        }
        Ask::Reconnect => kinds.len() <= 1 && kinds.iter().all(|k| *k == "verify") && (fault || ok == card.unwrap().plugged),
        Ask::Unlock { pin, .. } if pin.len() > 8 => kinds.is_empty() && !ok,
        Ask::Unlock { pin, mgm } => {
            let mut p = pin.clone();
            if !p.is_empty() {
                p.resize(8, 0xff);
            }
            if mgm.len() != 24 || mgm.chunks(8).any(|c| c.iter().all(|b| b >> 1 == c[0] >> 1)) {
                return !ok && run(&["verify"]) && eff.first().map(|c| c.data == p).unwrap_or(true);
            }
            run(&["verify", "auth"]) && eff.first().map(|c| c.data == p).unwrap_or(true) && ok == (fine && kinds.len() == 2 && (!fault || ok))
        }
        Ask::Provision { slot, cn, alg, touch, pin } => {
            if cn.len() > 64 {
                return kinds.is_empty() && !ok;
            }
            let g = eff.first().map(|c| c.alg == *alg && c.pinp == *pin && c.touchp == *touch).unwrap_or(true);
            let full = fine && kinds.len() == 3;
            run(&["gen", "sign", "put"]) && slotted(*slot) && g && (ok == (full && *alg != 7) || (fault && !ok))
                && match val {
                    Some(Val::Key(k)) => {
                        let c = &eff[2].data;
                        pub_m(k).p.get(1) == Some(&eff[0].out) && named(c, cn) && has(c, &eff[0].out) && c.ends_with(&eff[1].out)
                            && body(c).map(|t| eff[1].data == sha("sha256", &t) || eff[1].data == sha("sha384", &t)).unwrap_or(false)
                    }
                    _ => true,
                }
        }
        Ask::SignData { slot, data, .. } | Ask::Signer { slot, data } => {
            let k = cert_key(card.unwrap(), *slot);
            let alg = k.as_ref().map(|k| if k.key_type.name.ends_with("256") { 0x11 } else { 0x14 });
            let fits = match a {
                Ask::SignData { alg: x, .. } => alg == Some(*x),
                _ => alg.is_some(),
            };
            if !fits {
                return !ok && kinds.is_empty();
            }
            let h = sha(if alg == Some(0x11) { "sha256" } else { "sha384" }, data);
            let good = eff.iter().all(|c| c.data == h && Some(c.alg) == alg);
            run(&["sign"]) && slotted(*slot) && good && (ok == (fine && kinds.len() == 1) || (fault && !ok))
                && match (a, val) {
                    (Ask::SignData { .. }, Some(Val::Bytes(b))) => *b == eff[0].out,
                    (_, Some(Val::Bytes(b))) => sshcerts::utils::format_signature_for_ssh(k.as_ref().unwrap(), &eff[0].out).as_ref() == Some(b),
                    _ => true,
                }
        }
        Ask::Csr { slot, cn } => {
            if cert_key(card.unwrap(), *slot).is_none() {
                return !ok && kinds.is_empty();
            }
            run(&["sign"]) && slotted(*slot) && (ok == (fine && kinds.len() == 1) || (fault && !ok))
                && match val {
                    Some(Val::Bytes(b)) => {
                        let k = cert_key(card.unwrap(), *slot).map(|k| pub_m(&k).p[1].clone()).unwrap_or_default();
                        named(b, cn) && has(b, &k) && b.ends_with(&eff[0].out) && body(b).map(|t| eff[0].data == sha(if eff[0].alg == 0x11 { "sha256" } else { "sha384" }, &t)).unwrap_or(false)
                    }
                    _ => true,
                }
        }
        Ask::Attest(x) => run(&["attest"]) && slotted(*x) && !matches!(val, Some(Val::Bytes(b)) if *b != eff[0].out) && (ok == (fine && kinds.len() == 1) || (fault && !ok)),
        Ask::Write { slot, der } => kinds.iter().all(|k| *k == "put") && kinds.len() <= 1 && slotted(*slot) && eff.iter().all(|c| c.data == *der) && (ok == (fine && kinds.len() == 1) || (fault && !ok)),
        Ask::FetchPub(x) | Ask::KeyType(x) => {
            let k = cert_key(card.unwrap(), *x);
            kinds.is_empty() && (ok == k.is_some() || (fault && !ok))
                && match val {
                    Some(Val::Key(p)) => k.map(|k| pub_m(&k).p == pub_m(p).p).unwrap_or(false),
                    Some(Val::Alg(n)) => k.map(|k| k.key_type.name.ends_with("256") == (*n == 0x11)).unwrap_or(false),
                    _ => true,
                }
        }
        Ask::FetchCert(x) | Ask::Subject(x) | Ask::Configured(x) => {
            let c = card.unwrap().certs.get(x);
            kinds.is_empty() && (!ok || c.is_some()) && match val {
                Some(Val::Bytes(b)) => c == Some(b),
                _ => true,
            }
        }
    }
}

// ---- sessions ----
fn some_cert(s: &mut Sess, r: &mut Rng, k: &Signer) -> Vec<u8> {
    let by = Signer::ec(r, "nistp256");
    issue_x(s, r, &by, spki_of(k).0, &[]).der
}
fn ec_key(r: &mut Rng) -> EcKey {
    let c = *r.pick(&["nistp256", "nistp384"]);
    let v: Vec<&EcKey> = fx().ec.iter().filter(|k| k.curve == c).collect();
    (*r.pick(&v)).clone()
}
pub fn blank(r: &mut Rng, serial: u32) -> Card {
    let mut c = Card { serial, ver: [5, 4, 3], pin: b"123456".to_vec(), tries: 3, touch: true, keep: false, plugged: true, ..Card::default() };
    for (i, b) in c.mgm.iter_mut().enumerate() {
        *b = (i % 8) as u8 + 1;
    }
    let mut p: Vec<EcKey> = fx().ec.iter().filter(|k| k.curve == "nistp256").cloned().collect();
    r.shuffle(&mut p);
    c.pool256 = p;
    let mut p: Vec<EcKey> = fx().ec.iter().filter(|k| k.curve == "nistp384").cloned().collect();
    r.shuffle(&mut p);
    c.pool384 = p;
    c.poolrsa = fx().rsa.iter().filter(|k| k.bits == 2048).cloned().collect();
    c
}
fn breaks(r: &mut Rng, n: usize) {
    with(|w| {
        w.fault = Some(r.n(n));
        w.late = r.chance(50);
    });
}
fn pin(r: &mut Rng, d: &Dict) -> Vec<u8> {
    let n = r.range(1, 8);
    match r.n(4) {
        0 => r.bytes(n),
        1 => {
            let mut b = r.blob(d, 8);
            b.truncate(8);
            if b.is_empty() {
                b.push(49)
            }
            b
        }
        _ => (0..r.range(6, 8)).map(|_| 48 + r.n(10) as u8).collect(),
    }
}
/// a common name
fn cn_of(r: &mut Rng, d: &Dict) -> String {
    match r.n(14) {
        0 => String::new(),
        1 => {
            let mut t = r.word();
            while t.len() < 62 {
                t += &r.word();
            }
            t.truncate(r.range(62, 66));
            t
        }
        2 => r.text(d, 30),
        3 => {
            // blanks around and in it
            let b = *r.pick(&[" ", "\t", "\n", "  ", "\u{a0}", "\0"]);
            match r.n(4) {
                0 => r.word() + b,
                1 => b.to_string() + &r.word(),
                2 => r.word() + b + &r.word(),
                _ => b.to_string(),
            }
        }
        4 => r.word() + *r.pick(&[",", "=", "CN=x", "+", "/", "\"", "\\", "é", "日", "\u{1f511}"]) + &r.word(),
        _ => r.word(),
    }
}

pub fn c28(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let mut cards: Vec<Card> = vec![];
    for _ in 0..r.range(1, 3) {
        let mut serial = match r.n(4) {
            0 => r.u32_pool(d),
            1 if !cards.is_empty() => cards[0].serial ^ (1 << r.n(32)),
            _ => r.u64() as u32 & 0x00ff_ffff,
        };
        while cards.iter().any(|c| c.serial == serial) {
            serial = serial.wrapping_add(1);
        }
        let mut c = blank(r, serial);
        c.pin = pin(r, d);
        if r.chance(60) {
            for b in c.mgm.iter_mut() {
                *b = r.byte();
            }
        }
        if r.chance(20) {
            c.ver = *r.pick(&[[4, 3, 5], [4, 2, 6], [5, 2, 4], [5, 7, 0]]);
        }
        c.keep = r.chance(50);
        c.touch = r.chance(90);
        c.plugged = r.chance(90);
        c.tries = if r.chance(90) { 3 } else { r.n(3) as u8 };
        for _ in 0..r.n(5) {
            let slot = if r.chance(60) { SLOTS[r.n(5)] } else { *r.pick(&SLOTS) };
            let e = ec_key(r);
            let k = Key { alg: if e.curve == "nistp256" { 0x11 } else { 0x14 }, sec: Sec::Ec(e.clone()), pinp: r.n(4) as u8, touchp: r.n(4) as u8, made: r.chance(50) };
            let cert = match r.n(12) {
                0 => r.blob(d, 60),
                1 => {
                    let o = Signer::ec_of(&ec_key(r));
                    some_cert(&mut s, r, &o)
                }
                2 => {
                    let o = match r.n(3) {
                        0 => Signer::ed(r),
                        1 => Signer::ec(r, "nistp521"),
                        _ => Signer::rsa(r),
                    };
                    if matches!(&o.sk, Sk::Ec(_)) {
                        vec![0x30, 3, 2, 1, 1]
                    } else {
                        some_cert(&mut s, r, &o)
                    }
                }
                _ => some_cert(&mut s, r, &Signer::ec_of(&e)),
            };
            if r.chance(90) {
                c.keys.insert(slot, k);
            }
            if r.chance(90) && !cert.is_empty() && cert[0] != 0x70 {
                c.certs.insert(slot, cert);
            }
        }
        cards.push(c);
    }
    let model = cards.clone();
    let mut desk = Desk::new(&mut s, cards);
    let mut used: Vec<u8> = model.iter().flat_map(|c| c.certs.keys().copied()).collect();
    let n = r.range(3, 12);
    for i in 0..n {
        let c = r.pick(&model).clone();
        let live: Vec<usize> = (0..desk.hs.len()).filter(|h| desk.hs[*h].1.is_some()).collect();
        if i == 0 || live.is_empty() || r.chance(8) {
            let a = match r.n(10) {
                0 => Ask::New,
                1 => Ask::Open(c.serial ^ (1 << r.n(32))),
                _ => Ask::Open(c.serial),
            };
            if r.chance(4) {
                breaks(r, 8);
            }
            desk.ask(&mut s, 0, &a);
            continue;
        }
        if r.chance(5) {
            match r.n(5) {
                0 => desk.env(&mut s, "unplug", c.serial, &[]),
                1 | 2 => desk.env(&mut s, "plug", c.serial, &[]),
                3 => desk.env(&mut s, "touch", c.serial, &[r.n(2) as u8]),
                _ => {
                    let p = pin(r, d);
                    desk.env(&mut s, "pin", c.serial, &p)
                }
            }
            continue;
        }
        let h = if r.chance(80) { *live.last().unwrap() } else { *r.pick(&live) };
        if r.chance(3) {
            desk.drop_handle(&mut s, h);
            continue;
        }
        let me = with(|w| w.cards.iter().find(|c| c.serial == desk.hs[h].0).cloned().unwrap());
        let slot = match r.n(10) {
            0..=5 if !used.is_empty() => *r.pick(&used),
            6 | 7 => SLOTS[r.n(4)],
            _ => *r.pick(&SLOTS),
        };
        let cn = cn_of(r, d);
        let data = {
            let n = r.len(d, 300);
            if r.chance(60) { r.bytes(n) } else { r.blob(d, 300) }
        };
        let not_authed = !me.authed || !me.verified;
        let a = match r.n(40) {
            _ if not_authed && r.chance(35) => {
                let pin = match r.n(14) {
                    0 => pin(r, d),
                    1 => [&me.pin[..], &r.bytes(1)].concat(),
                    2 => me.pin[..me.pin.len() - 1].to_vec(),
                    3 if r.chance(50) => r.bytes(9),
                    _ => me.pin.clone(),
                };
                let mut mgm = me.mgm.to_vec();
                match r.n(16) {
                    0 => mgm[r.n(24)] ^= 2 << r.n(7),
                    1 => mgm.truncate(r.n(24)),
                    2 => mgm.push(0),
                    3 => mgm = vec![1; 24],
                    4 => mgm[r.n(24)] ^= 1,
                    _ => {}
                }
                Ask::Unlock { pin, mgm }
            }
            0..=7 => {
                used.push(slot);
                Ask::Provision { slot, cn, alg: *r.pick(&[0x11, 0x11, 0x11, 0x14, 0x14, 0x07, 0x06]), touch: r.n(4) as u8, pin: r.n(4) as u8 }
            }
            8..=13 => {
                let a = cert_key(&me, slot).map(|k| if k.key_type.name.ends_with("256") { 0x11 } else { 0x14 }).unwrap_or(0x11);
                Ask::SignData { slot, alg: if r.chance(80) { a } else { *r.pick(&[0x11, 0x14, 0x07, 0x06]) }, data }
            }
            14..=19 => Ask::Signer { slot, data },
            20 | 21 => Ask::FetchPub(slot),
            22 => Ask::KeyType(slot),
            23 | 24 => Ask::FetchCert(slot),
            25 => Ask::Subject(slot),
            26 => Ask::Configured(slot),
            27..=30 => {
                let e = ec_key(r);
                let mut der = match r.n(6) {
                    0 => {
                        let o = Signer::rsa(r);
                        some_cert(&mut s, r, &o)
                    }
                    _ => some_cert(&mut s, r, &Signer::ec_of(&e)),
                };
                if r.chance(10) {
                    let n = der.len();
                    der.truncate(r.n(n));
                }
                used.push(slot);
                Ask::Write { slot, der }
            }
            31..=33 => Ask::Attest(slot),
            34..=36 => Ask::Csr { slot, cn },
            37 => Ask::Reconnect,
            _ => Ask::Unlock { pin: me.pin.clone(), mgm: me.mgm.to_vec() },
        };
        if r.chance(4) {
            breaks(r, 10);
        }
        desk.ask(&mut s, h, &a);
    }
    s
}

/// a history of the model MC_Token
pub fn history(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::scen::{bytes, int, st};
    let mut s = Sess::new();
    let h = v.as_array().unwrap();
    let sn = r.u32_pool(d);
    let mut cards = vec![];
    let mut pins: Vec<Vec<u8>> = vec![pin(r, d)];
    loop {
        let p = pin(r, d);
        if p[..] != pins[0][..] && [&p[..], &[255; 8]].concat()[..8] != [&pins[0][..], &[255; 8]].concat()[..8] {
            pins.push(p);
            break;
        }
    }
    let p256: Vec<EcKey> = fx().ec.iter().filter(|k| k.curve == "nistp256").cloned().collect();
    let p384: Vec<EcKey> = fx().ec.iter().filter(|k| k.curve == "nistp384").cloned().collect();
    let at = r.n(p256.len());
    for i in 0..2usize {
        let bit = r.n(32);
        let mut c = blank(r, if i == 0 { sn } else { sn ^ (1 << bit) });
        c.pin = pins[i].clone();
        c.keep = h[0]["keep"].as_bool().unwrap();
        for b in c.mgm.iter_mut() {
            *b = r.byte();
        }
        let e = p256[(at + i) % p256.len()].clone();
        c.certs.insert(0x9a, some_cert(&mut s, r, &Signer::ec_of(&e)));
        c.pool256.retain(|k| k.q != e.q);
        c.keys.insert(0x9a, Key { alg: 0x11, sec: Sec::Ec(e), pinp: 0, touchp: 1, made: i == 0 });
        cards.push(c);
    }
    let sns = [cards[0].serial, cards[1].serial];
    let mgm = [cards[0].mgm.to_vec(), cards[1].mgm.to_vec()];
    let mut desk = Desk::new(&mut s, cards);
    // token 2 first: it is handle 0
    for i in [1, 0] {
        let ok = desk.ask(&mut s, 0, &Ask::Open(sns[i])).is_some();
        s.expect(ok);
        if !ok {
            return s;
        }
    }
    if h[0]["unlocked"].as_bool().unwrap() {
        let ok = desk.ask(&mut s, 1, &Ask::Unlock { pin: pins[0].clone(), mgm: mgm[0].clone() }).is_some();
        s.expect(ok);
    }
    for x in &h[1..] {
        let k = int(&x["k"]).max(1) as usize - 1;
        match st(&x["a"]) {
            "lose" => with(|w| {
                w.fault_at = Some(int(&x["n"]) as usize);
                w.late = x["late"].as_bool().unwrap();
            }),
            "plug" => desk.env(&mut s, "plug", sns[k], &[]),
            "unplug" => desk.env(&mut s, "unplug", sns[k], &[]),
            "touch" => desk.env(&mut s, "touch", sns[k], &[0]),
            "pin" => desk.env(&mut s, "pin", sns[k], &pins[1].clone()),
            _ => {
                let slot = int(&x["slot"]) as u8;
                let alg = int(&x["alg"]) as u8;
                let n = r.len(d, 200);
                let data = r.bytes(n);
                let a = match st(&x["call"]) {
                    "unlock" => Ask::Unlock { pin: pins[bytes(&x["pin"])[0] as usize - 1].clone(), mgm: mgm[k].clone() },
                    "provision" => Ask::Provision { slot, cn: Some(cn_of(r, d)).filter(|c| c.len() <= 64).unwrap_or_default(), alg, touch: int(&x["touchp"]) as u8, pin: int(&x["pinp"]) as u8 },
                    "sign_data" => Ask::SignData { slot, alg, data },
                    "signer" => Ask::Signer { slot, data },
                    "csr" => Ask::Csr { slot, cn: cn_of(r, d) },
                    "attest" => Ask::Attest(slot),
                    "write" => {
                        let e = r.pick(&p384).clone();
                        Ask::Write { slot, der: some_cert(&mut s, r, &Signer::ec_of(&e)) }
                    }
                    "fetch_pub" => Ask::FetchPub(slot),
                    _ => Ask::Reconnect,
                };
                let got = desk.ask(&mut s, 1 - k, &a).is_some();
                s.expect(got == (st(&x["st"]) == "ok"));
            }
        }
    }
    s
}
