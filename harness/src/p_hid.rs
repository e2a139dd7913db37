//! FIDO tokens: sessions with emulated ones.
use crate::api::{call, callo, pub_j, R};
use crate::certgen;
use crate::dict::Dict;
use crate::hid::*;
use crate::keys::*;
use crate::log::*;
use crate::p_fido::{issue_x, p256_fact, sign_der, spki_of, yu, yubico_fact, yubico_fido};
use crate::rng::Rng;
use sshcerts::error::Error;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::signing::sign_with_private_key;
use sshcerts::fido::Error as FidoError;
use sshcerts::ssh::{EcdsaSkPrivateKey, Ed25519SkPrivateKey, KeyType, PrivateKey, PrivateKeyKind, SSHCertificateSigner};
use std::sync::{Arc, Mutex};

fn hex8(b: &[u8]) -> Vec<u8> {
    sha("sha256", b)[..16].to_vec()
}
fn tok_j(s: &mut Sess, t: &Tok) -> String {
    let creds: Vec<String> = t
        .creds
        .iter()
        .map(|c| {
            let k = match &c.key.sk {
                Sk::Ec(e) => ("p256", e.q.clone()),
                _ => ("ed25519", c.key.pk.p[0].clone()),
            };
            format!("{{\"id\":{},\"rp\":{},\"alg\":{},\"pk\":{}}}", arr(&c.id), arr(&c.rp), q(k.0), arr(&k.1))
        })
        .collect();
    let _ = &s;
    format!(
        "{{\"plugged\":{},\"v21\":{},\"pins\":{},\"pin\":{},\"tries\":{},\"strikes\":{},\"always\":{},\"notrqd\":{},\"touch\":{},\"refusal\":{},\"creds\":[{}],\"ctr\":{},\"granted\":{}}}",
        t.plugged,
        t.v21,
        t.pins,
        opt(t.pin.as_ref().map(|p| arr(p))),
        t.tries,
        t.strikes,
        t.always,
        t.notrqd,
        t.touch,
        t.refusal,
        creds.join(","),
        arr(&t.ctr.to_be_bytes()),
        t.grant.is_some()
    )
}
pub struct Desk {
    pub w: Arc<World>,
}
impl Desk {
    pub fn new(s: &mut Sess, toks: Vec<Tok>) -> Desk {
        let v: Vec<String> = toks.iter().map(|t| tok_j(s, t)).collect();
        s.push("hd_world", &[("toks", format!("[{}]", v.join(",")))]);
        Desk { w: Arc::new(World(Mutex::new(Inner { toks, ..Default::default() }))) }
    }
    /// something happens to a token
    pub fn env(&mut self, s: &mut Sess, i: usize, f: impl FnOnce(&mut Tok)) {
        let t = {
            let mut g = self.w.l();
            f(&mut g.toks[i]);
            g.toks[i].clone()
        };
        let j = tok_j(s, &t);
        s.push("hd_env", &[("i", (i + 1).to_string()), ("t", j)]);
    }
    /// the tokens taken out during the call that just ended
    fn gone(&self, before: &[bool]) -> String {
        let g = self.w.l();
        let v: Vec<String> = g.toks.iter().enumerate().filter(|(i, t)| before[*i] && !t.plugged).map(|(i, _)| (i + 1).to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn live(&self) -> Vec<bool> {
        self.w.l().toks.iter().map(|t| t.plugged).collect()
    }
    fn start(&self, fault: Option<(usize, Fault)>) {
        let mut g = self.w.l();
        g.log.clear();
        g.fault = fault;
        g.hit = false;
    }
    /// the commands of the call that just ended, as recorded; with the facts behind them
    fn cmds(&self, s: &mut Sess) -> (String, bool) {
        let (log, hit, creds) = {
            let mut g = self.w.l();
            g.fault = None;
            (std::mem::take(&mut g.log), g.hit, g.toks.iter().map(|t| t.creds.clone()).collect::<Vec<_>>())
        };
        let mut v = vec![];
        for c in &log {
            if (c.k == "assert" || c.k == "probe") && c.st == 0 && !c.raw.is_empty() {
                if let Some(k) = creds[c.tok - 1].iter().find(|x| x.rp == c.rp && c.allow.contains(&x.id)) {
                    let (alg, key) = match &k.key.sk {
                        Sk::Ec(e) => ("p256", e.q.clone()),
                        _ => ("ed25519", k.key.pk.p[0].clone()),
                    };
                    s.fact(&Raw { alg, key: vec![key], msg: [&c.ad[..], &c.cdh].concat(), sig: c.raw.clone() });
                }
            }
            let x5c: Vec<String> = c.x5c.iter().map(|x| s.x(x)).collect();
            let algs: Vec<String> = c.algs.iter().map(|a| a.to_string()).collect();
            v.push(format!(
                "{{\"tok\":{},\"k\":{},\"rp\":{},\"user\":{},\"uname\":{},\"algs\":[{}],\"rk\":{},\"uv\":{},\"cdh\":{},\"allow\":{},\"up\":{},\"pinh\":{},\"auth\":{},\"st\":{},\"heard\":{},\"said\":{},\"fmt\":{},\"alg\":{},\"ad\":{},\"sig\":{},\"x5c\":[{}],\"left\":{}}}",
                c.tok, q(c.k), arr(&c.rp), arr(&c.user), arr(&c.uname), algs.join(","), c.rk, c.uv, arr(&c.cdh), arrs(&c.allow), c.up, arr(&c.pinh), q(c.auth), c.st, c.heard, c.said, q(&c.fmt), c.alg,
                arr(&c.ad), arr(&c.sig), x5c.join(","), c.left
            ));
        }
        (format!("[{}]", v.join(",")), hit)
    }
    pub fn gen(&mut self, s: &mut Sess, app: &str, comment: &str, pin: Option<&str>, arm: Option<[u8; 32]>, fault: Option<(usize, Fault)>) -> bool {
        s.calls += 1;
        if let Some(p) = pin {
            s.hash("sha256", p.as_bytes());
        }
        self.start(fault);
        let live = self.live();
        let w = self.w.clone();
        let r = call("fido_gen", app.as_bytes(), || within(&w, arm, || generate_new_ssh_key(app, comment, pin.map(|x| x.to_string()), None)));
        // what the call bound the new credential to
        let asked: Vec<Vec<u8>> = self.w.l().log.iter().filter(|c| c.k == "make").map(|c| c.cdh.clone()).collect();
        let (cmds, hit) = self.cmds(s);
        let mut f = vec![("app", arr(app.as_bytes())), ("comment", arr(comment.as_bytes())), ("pin", opt(pin.map(|p| arr(p.as_bytes())))), ("cmds", cmds), ("hit", hit.to_string()),
            ("gone", self.gone(&live)), ("armed", opt(arm.map(|a| arr(&a)))), ("root", arr(&yu().fido_root)), ("st", r.st())];
        match &r {
            R::Err(e) => {
                let (k, n) = match e {
                    Error::FidoError(FidoError::InvalidPin(n)) => ("InvalidPin", n.map(|x| x.to_string())),
                    Error::FidoError(FidoError::PinRequired) => ("PinRequired", None),
                    Error::FidoError(FidoError::KeyLocked) => ("KeyLocked", None),
                    Error::FidoError(FidoError::KeyBlocked) => ("KeyBlocked", None),
                    _ => ("other", None),
                };
                f.push(("ek", q(k)));
                f.push(("left", opt(n)));
            }
            R::Ok(k) => {
                let (flags, handle, reserved, kpin, path) = match &k.private_key.kind {
                    PrivateKeyKind::Ed25519Sk(x) => (x.flags, x.handle.clone(), x.reserved.clone(), x.pin.clone(), x.device_path.clone()),
                    PrivateKeyKind::EcdsaSk(x) => (x.flags, x.handle.clone(), x.reserved.clone(), x.pin.clone(), x.device_path.clone()),
                    _ => (0, vec![], vec![], None, None),
                };
                let a = &k.attestation;
                // it is a key like any other: written and read again it is the same
                let mut t = vec![];
                let back = match call("fido_back", b"", || {
                    k.private_key.write(&mut t)?;
                    PrivateKey::from_string(&String::from_utf8_lossy(&t))
                }) {
                    R::Ok(b) => {
                        b.pubkey == k.private_key.pubkey
                            && b.comment == comment
                            && match &b.kind {
                                PrivateKeyKind::Ed25519Sk(x) => x.handle == handle && x.flags == flags && x.reserved == reserved,
                                _ => false,
                            }
                    }
                    _ => false,
                };
                let xi = s.x(&a.intermediate);
                f.push((
                    "out",
                    format!(
                        "{{\"kt\":{},\"key\":{},\"comment\":{},\"flags\":{flags},\"handle\":{},\"reserved\":{},\"pin\":{},\"path\":{},\"ad\":{},\"sig\":{},\"inter\":{},\"ch\":{},\"alg\":{},\"back\":{back}}}",
                        q(k.private_key.key_type.name),
                        pub_j(&k.private_key.pubkey),
                        arr(k.private_key.comment.as_bytes()),
                        arr(&handle),
                        arr(&reserved),
                        opt(kpin.map(|p| arr(p.as_bytes()))),
                        opt(path.map(|p| arr(p.as_bytes()))),
                        arr(&a.auth_data),
                        arr(&a.auth_data_sig),
                        xi,
                        arr(&a.challenge),
                        a.alg
                    ),
                ));
            }
            R::Panic => {}
        }
        s.push("hd_gen", &f);
        if arm.is_none() {
            for x in asked {
                s.push("fresh", &[("v", format!("[{},{}]", q("challenge"), arr(&x)))]);
            }
        }
        matches!(r, R::Ok(_))
    }
    /// via: 0 directly, 1 as a signer
    pub fn sign(&mut self, s: &mut Sess, k: &PrivateKey, data: &[u8], via: usize, fault: Option<(usize, Fault)>) -> bool {
        s.calls += 1;
        s.hash("sha256", data);
        let (handle, pin) = match &k.kind {
            PrivateKeyKind::Ed25519Sk(x) => (x.handle.clone(), x.pin.clone()),
            PrivateKeyKind::EcdsaSk(x) => (x.handle.clone(), x.pin.clone()),
            _ => (vec![], None),
        };
        if let Some(p) = &pin {
            s.hash("sha256", p.as_bytes());
        }
        self.start(fault);
        let live = self.live();
        let w = self.w.clone();
        let r = callo("fido_sign", data, || within(&w, None, || if via == 0 { sign_with_private_key(k, data) } else { SSHCertificateSigner::sign(k, data) }));
        let (cmds, hit) = self.cmds(s);
        let xd = s.x(data);
        let mut f = vec![
            ("handle", arr(&handle)),
            ("key", pub_j(&k.pubkey)),
            ("pin", opt(pin.map(|p| arr(p.as_bytes())))),
            ("data", xd),
            ("cmds", cmds),
            ("hit", hit.to_string()),
            ("gone", self.gone(&live)),
            ("st", r.st()),
        ];
        if let R::Ok(b) = &r {
            f.push(("out", arr(b)));
        }
        s.push("hd_sign", &f);
        matches!(r, R::Ok(_))
    }
    /// a certificate signed by a CA on a token
    pub fn issue(&mut self, s: &mut Sess, r: &mut Rng, d: &Dict, k: &PrivateKey, fault: Option<(usize, Fault)>) -> bool {
        s.calls += 1;
        let subject = certgen::any_pub(r, d);
        let (handle, pin) = match &k.kind {
            PrivateKeyKind::Ed25519Sk(x) => (x.handle.clone(), x.pin.clone()),
            PrivateKeyKind::EcdsaSk(x) => (x.handle.clone(), x.pin.clone()),
            _ => (vec![], None),
        };
        if let Some(p) = &pin {
            s.hash("sha256", p.as_bytes());
        }
        let b = match sshcerts::Certificate::builder(&subject.ssh(), sshcerts::CertType::User, &k.pubkey) {
            Ok(b) => b.serial(r.u64()).key_id(r.word()).principal(r.word()).valid_after(0).valid_before(u64::MAX),
            Err(_) => return false,
        };
        let tbs = b.tbs_certificate();
        s.hash("sha256", &tbs);
        if let Some(a) = crate::api::pub_m(&k.pubkey).p.last() {
            s.hash("sha256", a);
        }
        self.start(fault);
        let live = self.live();
        let w = self.w.clone();
        let res = call("fido_issue", &tbs, || within(&w, None, || b.sign(k)));
        let (cmds, hit) = self.cmds(s);
        let xd = s.x(&tbs);
        let mut f = vec![
            ("handle", arr(&handle)),
            ("key", pub_j(&k.pubkey)),
            ("pin", opt(pin.map(|p| arr(p.as_bytes())))),
            ("data", xd),
            ("cmds", cmds),
            ("hit", hit.to_string()),
            ("gone", self.gone(&live)),
            ("st", res.st()),
        ];
        if let R::Ok(c) = &res {
            f.push(("out", arr(&c.signature)));
        }
        s.push("hd_issue", &f);
        matches!(res, R::Ok(_))
    }
}
pub fn sk_key(c: &Cred, app: &str, pin: Option<&str>) -> PrivateKey {
    let mut pk = c.key.pk.clone();
    let ec = matches!(c.key.sk, Sk::Ec(_));
    let name = if ec { "sk-ecdsa-sha2-nistp256@openssh.com" } else { "sk-ssh-ed25519@openssh.com" };
    pk.kt = name.into();
    pk.p = if ec { vec![pk.p[0].clone(), pk.p[1].clone(), app.as_bytes().to_vec()] } else { vec![pk.p[0].clone(), app.as_bytes().to_vec()] };
    let (handle, pin) = (c.id.clone(), pin.map(|x| x.to_string()));
    let kind = if ec {
        PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags: 1, handle, reserved: vec![], pin, device_path: None })
    } else {
        PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags: 1, handle, reserved: vec![], pin, device_path: None })
    };
    PrivateKey { key_type: KeyType::from_name(name).unwrap(), kind, pubkey: pk.ssh(), magic: 0, comment: String::new() }
}
pub fn new_cred(r: &mut Rng, d: &Dict, rp: &str) -> Cred {
    let key = if r.chance(50) { Signer::ed(r) } else { Signer::ec(r, "nistp256") };
    let n = match r.n(4) {
        0 => r.range(1, 8),
        1 => r.len(d, 300).max(1),
        _ => *r.pick(&[16, 48, 64, 128]),
    };
    Cred { id: r.bytes(n), rp: rp.as_bytes().to_vec(), key }
}
/// authenticator data for a new credential
fn auth_data(r: &mut Rng, rp: &str, key: &Signer, id: &[u8]) -> Vec<u8> {
    let mut v = sha("sha256", rp.as_bytes());
    v.push(0x41 | if r.chance(30) { 4 } else { 0 });
    v.extend(r.bytes(4));
    v.extend(r.bytes(16));
    v.extend((id.len() as u16).to_be_bytes());
    v.extend(id);
    v.extend(C::M(vec![(C::I(1), C::I(1)), (C::I(3), C::I(-8)), (C::I(-1), C::I(6)), (C::I(-2), C::B(key.pk.p[0].clone()))]).enc());
    v
}
/// An attestation; the challenge it goes with (if it is one of Yubico's)
pub fn att(s: &mut Sess, r: &mut Rng, app: &str, kind: usize) -> (Att, Option<[u8; 32]>) {
    let y = yu();
    let (ad, sig, ch, inter) = r.pick(&y.fido).clone();
    let mut arm = [0u8; 32];
    arm.copy_from_slice(&ch);
    let mut a = Att { fmt: "packed".into(), alg: -7, ad: ad.clone(), sig: sig.clone(), x5c: vec![inter.clone()] };
    let facts = |s: &mut Sess| {
        yubico_fact(s, &inter, &y.fido_root);
        let (bits, _) = yubico_fido(&inter);
        s.fact(&Raw { alg: "p256der", key: vec![bits], msg: [&ad[..], &ch].concat(), sig: sig.clone() });
    };
    match kind {
        // genuine
        0 => {
            facts(s);
            (a, Some(arm))
        }
        // genuine, with more certificates after the one that counts
        1 => {
            facts(s);
            let by = Signer::ec(r, "nistp256");
            a.x5c.push(issue_x(s, r, &by, spki_of(&by).0, &[]).der);
            (a, Some(arm))
        }
        // made for another challenge
        2 => {
            facts(s);
            (a, None)
        }
        // changed afterwards
        3 => {
            facts(s);
            let n = *r.pick(&[32usize, 34, 36, 40, 60, 100, 200, 224]);
            a.ad[n] ^= if n == 32 { 4 } else { 1 << r.n(8) };
            (a, Some(arm))
        }
        4 => {
            facts(s);
            let n = a.sig.len() - 1 - r.n(20);
            a.sig[n] ^= 1 << r.n(8);
            (a, Some(arm))
        }
        // the certificate of another maker
        5 | 6 => {
            let by = Signer::ec(r, "nistp256");
            let ik = Signer::ec(r, "nistp256");
            let c = issue_x(s, r, &by, spki_of(&ik).0, &[]);
            let key = Signer::ed(r);
            let id = r.bytes(32);
            a.ad = auth_data(r, app, &key, &id);
            let arm: [u8; 32] = r.bytes(32).try_into().unwrap();
            let m = [&a.ad[..], &arm].concat();
            a.sig = sign_der(&ik, &m);
            p256_fact(s, &ik, &m, &a.sig);
            a.x5c = vec![c.der];
            if kind == 6 {
                facts(s);
                a.x5c.push(inter.clone());
            }
            (a, Some(arm))
        }
        // self attestation, none at all, other labels
        7 => {
            facts(s);
            a.x5c.clear();
            (a, Some(arm))
        }
        8 => {
            a.fmt = "none".into();
            a.sig.clear();
            a.x5c.clear();
            (a, Some(arm))
        }
        _ => {
            facts(s);
            a.alg = *r.pick(&[-8, -35, -257]);
            (a, Some(arm))
        }
    }
}
fn text(r: &mut Rng, d: &Dict) -> String {
    match r.n(8) {
        0 => r.text(d, 40),
        6 => format!("{}{}{}", r.pick(&["", " ", "\t"]), r.word(), r.pick(&[" ", "\n", "\0", "\r\n", "  "])),
        7 => {
            let t = r.text(d, 300);
            format!("{}{}{}", r.pick(&[" ", "\n", "", "\"", "#", "\u{feff}"]), t, r.pick(&["", "\"", " ", "@x", "\u{e9}"]))
        }
        1 => "ssh:".into(),
        2 => "ssh:".to_string() + &r.word(),
        3 => String::new(),
        _ => r.word(),
    }
}
fn pin_of(r: &mut Rng, d: &Dict) -> String {
    match r.n(5) {
        0 => r.text(d, 20),
        1 => format!("{:0w$}", r.n(1000000), w = r.range(4, 9)),
        2 => {
            let n = r.range(20, 64);
            (0..n).map(|_| (b'a' + r.n(26) as u8) as char).collect()
        }
        _ => format!("{}", 1000 + r.n(9000)),
    }
}
fn fault(r: &mut Rng, pct: usize) -> Option<(usize, Fault)> {
    if !r.chance(pct) {
        return None;
    }
    let f = match r.n(6) {
        0 => Fault::Before,
        1 => Fault::After,
        2 => Fault::Garbage,
        _ => Fault::Say(*r.pick(&[0x01, 0x02, 0x14, 0x19, 0x22, 0x26, 0x27, 0x28, 0x2b, 0x2c, 0x2e, 0x2f, 0x30, 0x3a, 0x7f])),
    };
    Some((r.n(5), f))
}
pub fn c29(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let apps = [text(r, d), "test".to_string(), text(r, d)];
    let pins = [pin_of(r, d), pin_of(r, d)];
    for p in &pins {
        s.hash("sha256", p.as_bytes());
    }
    let mut toks = vec![];
    let nt = *r.pick(&[1, 1, 1, 1, 2, 2, 3]);
    let pick = r.n(nt);
    for i in 0..nt {
        let mut t = Tok { plugged: true, v21: r.chance(50), pins: r.chance(85), tries: *r.pick(&[8, 8, 8, 3, 2, 1, 0]), touch: i == pick && (nt > 1 || r.chance(92)), refusal: *r.pick(&[0x2f, 0x27]), ctr: r.u32_pool(d), step: r.n(3) as u32, fl: r.byte(), nonce: r.u64(), ..Tok::default() };
        t.strikes = if t.pins && r.chance(10) { r.n(4) as u8 } else { 0 };
        if t.pins && r.chance(50) {
            t.pin = Some(hex8(r.pick(&pins).as_bytes()));
        }
        t.notrqd = t.v21 && r.chance(30);
        t.always = r.chance(if t.pin.is_some() { 40 } else { 5 });
        for _ in 0..r.n(3) {
            let a = r.pick(&apps).clone();
            t.creds.push(new_cred(r, d, &a));
        }
        toks.push(t);
    }
    // calls that get whatever challenge they draw
    let unarmed = r.chance(15);
    let mut desk = Desk::new(&mut s, toks.clone());
    for _ in 0..r.range(2, 5) {
        let now: Vec<Tok> = desk.w.l().toks.clone();
        let live: Vec<usize> = (0..nt).filter(|i| now[*i].plugged).collect();
        if live.is_empty() {
            let i = r.n(nt);
            desk.env(&mut s, i, |t| {
                t.plugged = true;
                t.touch = true;
                t.strikes = 0;
                t.grant = None;
            });
            continue;
        }
        let mut touched: Vec<usize> = live.iter().copied().filter(|i| now[*i].touch).collect();
        if live.len() > 1 && touched.is_empty() {
            let i = *r.pick(&live);
            desk.env(&mut s, i, |t| t.touch = true);
            touched = vec![i];
        }
        let me = touched.first().copied().unwrap_or(live[0]);
        if r.chance(12) {
            let (c, p) = (r.n(4), r.pick(&pins).clone());
            desk.env(&mut s, me, |t| match c {
                0 => {
                    // taken out and put back
                    t.strikes = 0;
                    t.grant = None;
                }
                1 if t.pins => {
                    t.pin = Some(hex8(p.as_bytes()));
                    t.tries = 8;
                }
                2 if nt == 1 => t.touch = !t.touch,
                _ => t.always = !t.always,
            });
            continue;
        }
        let want = now[me].pin.clone();
        let pin: Option<String> = match r.n(10) {
            0 | 1 => None,
            2 => Some(pin_of(r, d)),
            3 => Some(r.pick(&pins).clone()),
            4 => pins.iter().find(|p| Some(hex8(p.as_bytes())) == want).map(|p| p.clone() + *r.pick(&[" ", "\n", "0", "\0"])),
            _ => pins.iter().find(|p| Some(hex8(p.as_bytes())) == want).cloned(),
        };
        let f = fault(r, 15);
        if r.chance(50) {
            let app = if unarmed || r.chance(60) { "test".to_string() } else { r.pick(&apps).clone() };
            let kind = if unarmed { 2 } else if r.chance(50) { 0 } else { r.n(10) };
            // a token does not answer for another application
            let kind = if unarmed { 2 } else if app != "test" && kind < 5 { 5 } else { kind };
            let (a, arm) = att(&mut s, r, &app, kind);
            {
                let mut g = desk.w.l();
                g.toks.iter_mut().for_each(|t| t.atts = vec![a.clone()]);
            }
            let comment = text(r, d);
            desk.gen(&mut s, &app, &comment, pin.as_deref(), arm, f);
        } else {
            let mut c = match now[me].creds.len() {
                0 => new_cred(r, d, &apps[0]),
                n => now[me].creds[r.n(n)].clone(),
            };
            let mut app = String::from_utf8_lossy(&c.rp).to_string();
            match r.n(14) {
                0 => app = text(r, d),
                1 => c.id.push(0),
                2 => {
                    let n = r.n(c.id.len());
                    c.id[n] ^= 1 << r.n(8);
                }
                3 => c.id.truncate(c.id.len() - 1),
                4 if !c.id.is_empty() => {
                    // a credential of another token
                    if let Some(x) = now.iter().flat_map(|t| t.creds.iter()).last() {
                        c = x.clone();
                        app = String::from_utf8_lossy(&c.rp).to_string();
                    }
                }
                _ => {}
            }
            let k = sk_key(&c, &app, pin.as_deref());
            let n = r.len(d, 400);
            let data = if r.chance(60) { r.bytes(n) } else { r.blob(d, 400) };
            match r.n(5) {
                0 | 1 => desk.sign(&mut s, &k, &data, 0, f),
                2 | 3 => desk.sign(&mut s, &k, &data, 1, f),
                _ => desk.issue(&mut s, r, d, &k, f),
            };
        }
    }
    s
}
/// A history explored by TLC (spec/MC_Ctap.tla)
pub fn history(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::scen::{int, st};
    let mut s = Sess::new();
    let h = v.as_array().unwrap();
    let mut pins = vec![pin_of(r, d), pin_of(r, d)];
    while pins[1] == pins[0] {
        pins[1] = pin_of(r, d);
    }
    for p in &pins {
        s.hash("sha256", p.as_bytes());
    }
    let apps = ["test".to_string(), "ssh:".to_string() + &r.word()];
    let b = |k: &str| h[0][k].as_bool().unwrap();
    let mut toks = vec![];
    for i in 0..2 {
        let mut t = Tok { plugged: true, v21: i == 0, pins: true, pin: Some(hex8(pins[i].as_bytes())), tries: 8, touch: i == 0, refusal: 0x2f, ctr: r.u32_pool(d), step: r.n(3) as u32, fl: r.byte(), nonce: r.u64(), ..Tok::default() };
        if i == 0 {
            t.always = b("always");
            t.notrqd = b("notrqd");
            if !b("has") {
                t.pin = None;
            }
            t.strikes = int(&h[0]["worn"]) as u8;
            t.tries = if b("few") { 1 } else { 8 };
        } else {
            t.plugged = b("two");
        }
        t.creds = vec![new_cred(r, d, &apps[0])];
        toks.push(t);
    }
    let creds: Vec<Cred> = toks.iter().map(|t| t.creds[0].clone()).collect();
    let mut desk = Desk::new(&mut s, toks);
    let mut fault = None;
    for x in &h[1..] {
        match st(&x["a"]) {
            "break" => {
                let f = match st(&x["how"]) {
                    "before" => Fault::Before,
                    "after" => Fault::After,
                    _ => Fault::Say(0x3a),
                };
                fault = Some((int(&x["n"]) as usize, f));
            }
            "env" => {
                let p = pins[1].clone();
                desk.env(&mut s, int(&x["k"]) as usize - 1, |t| match st(&x["what"]) {
                    "plug" => (t.plugged, t.strikes) = (true, 0),
                    "unplug" => (t.plugged, t.grant) = (false, None),
                    "power" => (t.strikes, t.grant) = (0, None),
                    "touch" => t.touch = !t.touch,
                    "back" => (t.plugged, t.touch, t.strikes) = (true, true, 0),
                    _ => (t.pin, t.tries, t.strikes) = (Some(hex8(p.as_bytes())), 8, 0),
                });
            }
            _ => {
                let pin = x["pin"].as_array().filter(|a| !a.is_empty()).map(|a| pins[int(&a[0][0]) as usize - 1].clone());
                let app = apps[int(&x["app"][0]) as usize - 1].clone();
                let ok = if st(&x["call"]) == "gen" {
                    let (a, arm) = att(&mut s, r, &app, match st(&x["att"]) {
                        "maker" => 0,
                        "stale" => 2,
                        _ => 5,
                    });
                    desk.w.l().toks.iter_mut().for_each(|t| t.atts = vec![a.clone()]);
                    let comment = text(r, d);
                    desk.gen(&mut s, &app, &comment, pin.as_deref(), arm, fault.take())
                } else {
                    let c = &creds[int(&x["handle"][0]) as usize - 1];
                    let k = sk_key(c, &app, pin.as_deref());
                    let n = r.len(d, 200);
                    let data = r.bytes(n);
                    match st(&x["call"]) {
                        "sign" => desk.sign(&mut s, &k, &data, r.n(2), fault.take()),
                        _ => desk.issue(&mut s, r, d, &k, fault.take()),
                    }
                };
                s.expect(ok == (st(&x["st"]) == "ok"));
            }
        }
    }
    s
}
