//! C03, C04 and C27: issuing certificates.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::wire::*;
use sshcerts::ssh::*;
use std::cell::RefCell;
use std::collections::HashMap;

/// a certificate under construction and what it should be
#[derive(Clone)]
pub struct B {
    pub h: usize,
    pub c: Certificate,
    pub m: CertM,
    pub cm: Option<String>,
    pub sig: Vec<u8>,
    pub ser: Vec<u8>,
}
pub struct Closure<'a> {
    pub got: RefCell<Vec<u8>>,
    #[allow(clippy::type_complexity)]
    pub f: RefCell<Box<dyn FnMut(&[u8]) -> Option<Vec<u8>> + 'a>>,
}
impl SSHCertificateSigner for Closure<'_> {
    fn sign(&self, buffer: &[u8]) -> Option<Vec<u8>> {
        *self.got.borrow_mut() = buffer.to_vec();
        (self.f.borrow_mut())(buffer)
    }
}
fn ct(n: u32) -> CertType {
    if n == 1 {
        CertType::User
    } else {
        CertType::Host
    }
}
fn lex(v: &[(String, String)]) -> Vec<(String, String)> {
    let mut v = v.to_vec();
    v.sort();
    v
}
impl B {
    pub fn tbs(&self) -> Vec<u8> {
        let mut m = self.m.clone();
        m.cr = lex(&m.cr);
        m.ex = lex(&m.ex);
        m.tbs().0
    }
    fn ok(&self) -> bool {
        self.m.matches(&self.c) && self.c.comment == self.cm && self.c.signature == self.sig && self.c.serialized == self.ser
    }
}
pub fn b_new(s: &mut Sess, r: &mut Rng, d: &Dict, key: &PubM, ca: &PubM) -> Option<B> {
    s.calls += 1;
    let role = 1 + r.n(2) as u32;
    let mut pk = key.ssh();
    if r.chance(20) {
        pk.comment = Some(r.text(d, 30));
    }
    let cak = ca.ssh();
    let h = s.h();
    let res = call("b_new", b"", || Certificate::builder(&pk, ct(role), &cak));
    let st = res.st();
    let c = res.ok();
    let mut f = vec![("h", h.to_string()), ("key", pub_j(&pk)), ("ct", arr(&role.to_be_bytes())), ("ca", pub_j(&cak)), ("st", st)];
    match c {
        Some(c) => {
            f.push(("out", cert_j(s, &c)));
            s.push("b_new", &f);
            let m = CertM {
                kt: cert_name(&key.kt),
                nonce: c.nonce.clone(),
                key: key.clone(),
                serial: c.serial,
                ct: role,
                id: String::new(),
                pr: vec![],
                va: 0,
                vb: 0,
                cr: vec![],
                ex: vec![],
                rs: vec![],
                ca: ca.clone(),
            };
            let b = B { h, c, m, cm: None, sig: vec![], ser: vec![] };
            s.expect(b.ok() && b.m.nonce.len() == 32);
            Some(b)
        }
        None => {
            s.push("crash", &f);
            s.sus = true;
            None
        }
    }
}
/// continue from an imported certificate (event at position `from`)
pub fn b_load(s: &mut Sess, c: &Certificate, m: &CertM, from: usize) -> B {
    let h = s.h();
    let o = cert_j(s, c);
    s.push("b_load", &[("h", h.to_string()), ("from", from.to_string()), ("out", o)]);
    B { h, c: c.clone(), m: m.clone(), cm: c.comment.clone(), sig: c.signature.clone(), ser: c.serialized.clone() }
}
pub fn b_clone(s: &mut Sess, b: &B) -> B {
    s.calls += 1;
    let h = s.h();
    let mut n = b.clone();
    n.h = h;
    let o = cert_j(s, &n.c);
    s.push("b_clone", &[("h", h.to_string()), ("of", b.h.to_string()), ("out", o)]);
    s.expect(n.ok());
    n
}
pub fn b_get(s: &mut Sess, b: &B) {
    let o = cert_j(s, &b.c);
    s.push("b_get", &[("h", b.h.to_string()), ("out", o)]);
    s.expect(b.ok());
}
fn put(v: &mut Vec<(String, String)>, k: &str, x: &str) {
    v.retain(|y| y.0 != k);
    v.push((k.into(), x.into()));
}
fn jmap(v: &[(String, String)]) -> String {
    format!("[{}]", v.iter().map(|(a, b)| format!("[{},{}]", arr(a.as_bytes()), arr(b.as_bytes()))).collect::<Vec<_>>().join(","))
}
/// what a setter is given
#[derive(Clone)]
pub enum Val {
    Int(u64),
    Text(String),
    Texts(Vec<String>),
    Opt(String, String),
    Opts(Vec<(String, String)>),
    Blob(Vec<u8>),
    Role(u32),
    Key(PubM),
}
/// one setter call, chosen at random (or given)
pub fn b_set(s: &mut Sess, r: &mut Rng, d: &Dict, b: &mut B, which: Option<&str>) {
    const F: [&str; 16] = ["serial", "id", "pr", "prs", "va", "vb", "cr", "crs", "ex", "exs", "cm", "nonce", "rs", "ct", "ca", "key"];
    let f = match which {
        Some(x) => x,
        None => {
            let m = if r.chance(85) { 11 } else { 16 };
            F[r.n(m)]
        }
    };
    let v = match f {
        "serial" | "va" => Val::Int(r.u64_pool(d)),
        "vb" => Val::Int(if r.chance(20) { u64::MAX } else { r.u64_pool(d) }),
        "id" => Val::Text(r.text(d, 300)),
        "pr" => Val::Text(if !b.m.pr.is_empty() && r.chance(15) { r.pick(&b.m.pr).clone() } else { r.text(d, 80) }),
        "prs" => Val::Texts(principals(r, d)),
        "cr" | "ex" => {
            let l = if f == "cr" { &b.m.cr } else { &b.m.ex };
            let k = if !l.is_empty() && r.chance(25) { r.pick(l).0.clone() } else { option_name(r, d) };
            let x = if r.chance(40) { String::new() } else { r.text(d, 120) };
            Val::Opt(k, x)
        }
        "crs" | "exs" => {
            let mut l = option_list(r, d);
            if f == "exs" && r.chance(40) {
                l = std_ext(s);
            }
            Val::Opts(l)
        }
        "cm" => Val::Text(r.text(d, 80)),
        "nonce" => Val::Blob(r.blob(d, 100)),
        "rs" => Val::Blob(r.blob(d, 40)),
        "ct" => Val::Role(1 + r.n(2) as u32),
        "ca" => {
            let a = app(r, d);
            Val::Key(Signer::any(r, &a).pk)
        }
        _ => Val::Key(pub_of(r, d, &b.m.key.kt.clone())),
    };
    b_put(s, b, f, v)
}
pub fn std_ext(s: &mut Sess) -> Vec<(String, String)> {
    let std = callv("std_ext", b"", Certificate::standard_extensions).ok().unwrap_or_default();
    s.push("std_ext", &[("out", map_j(&std))]);
    std.into_iter().collect()
}
/// field f set to v
pub fn b_put(s: &mut Sess, b: &mut B, f: &str, val: Val) {
    s.calls += 1;
    let c = b.c.clone();
    let res: R<Certificate>;
    let v: String;
    match (f, val) {
        ("serial", Val::Int(x)) => {
            b.m.serial = x;
            v = arr(&x.to_be_bytes());
            res = callv("b_set", b"", || c.serial(x));
        }
        ("va", Val::Int(x)) => {
            b.m.va = x;
            v = arr(&x.to_be_bytes());
            res = callv("b_set", b"", || c.valid_after(x));
        }
        ("vb", Val::Int(x)) => {
            b.m.vb = x;
            v = arr(&x.to_be_bytes());
            res = callv("b_set", b"", || c.valid_before(x));
        }
        ("id", Val::Text(x)) => {
            v = arr(x.as_bytes());
            res = callv("b_set", x.as_bytes(), || c.key_id(&x));
            b.m.id = x;
        }
        ("pr", Val::Text(x)) => {
            v = arr(x.as_bytes());
            res = callv("b_set", x.as_bytes(), || c.principal(&x));
            b.m.pr.push(x);
        }
        ("prs", Val::Texts(x)) => {
            v = arrs(&x);
            res = callv("b_set", b"", || c.set_principals(&x));
            b.m.pr = x;
        }
        ("cr" | "ex", Val::Opt(k, x)) => {
            v = format!("[{},{}]", arr(k.as_bytes()), arr(x.as_bytes()));
            put(if f == "cr" { &mut b.m.cr } else { &mut b.m.ex }, &k, &x);
            res = callv("b_set", b"", || if f == "cr" { c.critical_option(&k, &x) } else { c.extension(&k, &x) });
        }
        ("crs" | "exs", Val::Opts(l)) => {
            v = jmap(&l);
            let hm: HashMap<String, String> = l.iter().cloned().collect();
            if f == "crs" {
                b.m.cr = l;
            } else {
                b.m.ex = l;
            }
            res = callv("b_set", b"", || if f == "crs" { c.set_critical_options(hm) } else { c.set_extensions(hm) });
        }
        ("cm", Val::Text(x)) => {
            v = arr(x.as_bytes());
            res = callv("b_set", b"", || c.comment(&x));
            b.cm = Some(x);
        }
        // public fields written directly
        (_, val) => {
            let mut c = c;
            match (f, val) {
                ("nonce", Val::Blob(x)) => {
                    v = arr(&x);
                    c.nonce = x.clone();
                    b.m.nonce = x;
                }
                ("rs", Val::Blob(x)) => {
                    v = arr(&x);
                    c.reserved = x.clone();
                    b.m.rs = x;
                }
                ("ct", Val::Role(x)) => {
                    v = arr(&x.to_be_bytes());
                    c.cert_type = ct(x);
                    b.m.ct = x;
                }
                ("ca", Val::Key(k)) => {
                    let pk = k.ssh();
                    v = pub_j(&pk);
                    c.signature_key = pk;
                    b.m.ca = k;
                }
                ("key", Val::Key(k)) => {
                    let pk = k.ssh();
                    v = pub_j(&pk);
                    c.key = pk;
                    b.m.key = k;
                }
                _ => panic!("no setter {f}"),
            }
            res = R::Ok(c);
        }
    }
    match res.ok() {
        Some(c) => {
            b.c = c;
            let o = cert_j(s, &b.c);
            s.push("b_set", &[("h", b.h.to_string()), ("f", q(f)), ("v", v), ("out", o)]);
            s.expect(b.ok());
        }
        None => {
            s.push("crash", &[("f", q(f))]);
            s.sus = true;
        }
    }
}
pub fn b_tbs(s: &mut Sess, b: &B) {
    s.calls += 1;
    match callv("b_tbs", b"", || b.c.tbs_certificate()).ok() {
        Some(t) => {
            s.expect(t == b.tbs());
            s.push("b_tbs", &[("h", b.h.to_string()), ("out", arr(&t))]);
        }
        None => {
            s.push("crash", &[]);
            s.sus = true;
        }
    }
}
fn attached(s: &mut Sess, b: &mut B, c: Certificate, sig: &[u8]) {
    let t = b.tbs();
    b.ser = [t, sb(sig)].concat();
    b.sig = sig.to_vec();
    b.c = c;
    s.expect(b.ok());
}
pub fn b_addsig(s: &mut Sess, b: &mut B, sig: &[u8], want: Option<bool>) -> bool {
    s.calls += 1;
    let c = b.c.clone();
    let res = call("b_addsig", sig, || c.add_signature(sig));
    let mut f = vec![("h", b.h.to_string()), ("sig", arr(sig)), ("st", res.st())];
    let o = res.ok();
    let got = o.is_some();
    if let Some(c) = o {
        f.push(("out", cert_j(s, &c)));
        attached(s, b, c, sig);
    }
    s.push("b_addsig", &f);
    if let Some(w) = want {
        s.expect(w == got);
    }
    got
}
/// sign through a signer that answers `ret` after looking at what it is given
pub fn b_sign(s: &mut Sess, b: &mut B, want: Option<bool>, mut ret: impl FnMut(&mut Sess, &[u8]) -> Option<Vec<u8>>) -> bool {
    s.calls += 1;
    let c = b.c.clone();
    let answer: RefCell<Option<Vec<u8>>> = RefCell::new(None);
    let (res, gotb) = {
        let sc = RefCell::new(&mut *s);
        let cl = Closure {
            got: RefCell::new(vec![]),
            f: RefCell::new(Box::new(|x: &[u8]| {
                let mut g = sc.borrow_mut();
                let a = ret(&mut g, x);
                *answer.borrow_mut() = a.clone();
                a
            })),
        };
        let res = call("b_sign", b"", || c.sign(&cl));
        let g = cl.got.borrow().clone();
        (res, g)
    };
    let ans = answer.into_inner();
    let mut f = vec![("h", b.h.to_string()), ("got", arr(&gotb)), ("ret", opt(ans.as_ref().map(|a| arr(a)))), ("st", res.st())];
    let o = res.ok();
    let ok = o.is_some();
    if let Some(c) = o {
        f.push(("out", cert_j(s, &c)));
        let sg = ans.unwrap_or_default();
        attached(s, b, c, &sg);
    }
    s.push("b_sign", &f);
    if let Some(w) = want {
        s.expect(w == ok);
    }
    ok
}
/// sign with one of the library's own private keys
pub fn b_sign_key(s: &mut Sess, b: &mut B, k: &PrivateKey, use_: &str) -> bool {
    s.calls += 1;
    let c = b.c.clone();
    let res = call("b_sign_key", b"", || c.sign(k));
    let st = res.st();
    let o = res.ok();
    let ok = o.is_some();
    let mut f = vec![("h", b.h.to_string()), ("use", q(use_)), ("st", st)];
    if let Some(c) = o {
        let t = b.tbs();
        let sig = c.signature.clone();
        s.witness(&b.m.ca.clone(), &sig, &t);
        f.push(("out", cert_j(s, &c)));
        attached(s, b, c, &sig);
    }
    s.push("b_sign", &f);
    if use_ != "any" {
        s.expect(ok == (use_ == "yes"));
    }
    ok
}
pub fn b_text(s: &mut Sess, b: &B) -> String {
    s.calls += 1;
    let t = callv("b_text", b"", || format!("{}", b.c)).ok().unwrap_or("<panic>".into());
    s.push("b_text", &[("h", b.h.to_string()), ("out", arr(t.as_bytes()))]);
    s.expect(t == format!("{} {} {}", b.m.kt, b64(&b.ser), b.m.id));
    t
}
pub fn b_pretty(s: &mut Sess, b: &B) {
    s.calls += 1;
    s.hash("sha256", &b.m.key.enc());
    s.hash("sha256", &b.m.ca.enc());
    let t = callv("b_pretty", b"", || format!("{:#}", b.c)).ok().unwrap_or("<panic>".into());
    s.push("b_pretty", &[("h", b.h.to_string()), ("out", arr(t.as_bytes()))]);
    s.expect(listed(&b.m, &t));
}
fn short(kt: &str) -> &'static str {
    match kt {
        "ssh-rsa" => "RSA",
        "ssh-rsa-cert-v01@openssh.com" => "RSA-CERT",
        "ssh-ed25519" => "ED25519",
        "ssh-ed25519-cert-v01@openssh.com" => "ED25519-CERT",
        "sk-ssh-ed25519@openssh.com" => "ED25519-SK",
        "sk-ssh-ed25519-cert-v01@openssh.com" => "ED25519-SK-CERT",
        "sk-ecdsa-sha2-nistp256@openssh.com" | "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com" => "ECDSA-SK",
        x if x.contains("-cert-") => "ECDSA-CERT",
        _ => "ECDSA",
    }
}
/// a screen for the listing: exact, but for the order of the options
fn listed(m: &CertM, t: &str) -> bool {
    let fp = |k: &PubM| b64(&sha("sha256", &k.enc())).trim_end_matches('=').to_string();
    let mut h = format!("Type: {} {} certificate\n", m.kt, if m.ct == 1 { "user" } else { "host" });
    h += &format!("Public Key: {} SHA256:{}\n", short(&m.kt), fp(&m.key));
    h += &format!("Signing CA: {} SHA256:{} (using {})\n", short(&m.ca.kt), fp(&m.ca), m.ca.kt);
    h += &format!("Key ID: \"{}\"\nSerial: {}\n", m.id, m.serial);
    h += &(if m.va == 0 && m.vb == u64::MAX { "Valid: forever\n".into() } else { format!("Valid between: {} and {}\n", m.va, m.vb) });
    h += if m.pr.is_empty() { "Principals: (none)\n" } else { "Principals\n" };
    for p in &m.pr {
        h += &format!("\t{p}\n");
    }
    let Some(rest) = t.strip_prefix(&h[..]) else { return false };
    let ls: Vec<&str> = rest.split('\n').collect();
    let sect = |title: &str, mut want: Vec<String>, ls: &[&str]| -> Option<usize> {
        let n = want.len();
        let head = if n == 0 { format!("{title} (none)") } else { title.to_string() };
        let mut got: Vec<&str> = ls.get(1..1 + n)?.to_vec();
        got.sort();
        want.sort();
        (ls[0] == head && got == want).then_some(1 + n)
    };
    let Some(n) = sect("Critical Options:", m.cr.iter().map(|o| format!("\t{} {}", o.0, o.1)).collect(), &ls) else { return false };
    let Some(k) = sect("Extensions:", m.ex.iter().map(|o| format!("\t{}", o.0)).collect(), &ls[n..]) else { return false };
    ls[n + k..] == [""]
}

pub fn priv_of(k: &Signer, r: &mut Rng) -> Option<PrivateKey> {
    let t = crate::p_priv::plain_file(k, r, "c");
    call("setup", t.as_bytes(), || PrivateKey::from_string(&t)).ok()
}

/// C03: whatever is set last is what is issued
pub fn c03(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let a = app(r, d);
    let k = Signer::any(r, &a);
    let key = any_pub(r, d);
    let Some(mut b) = b_new(&mut s, r, d, &key, &k.pk) else { return s };
    let rounds = r.range(1, 3);
    let mut signed = false;
    for _ in 0..rounds {
        let n = r.n(9);
        for _ in 0..n {
            let f = if r.chance(4) { None } else { Some(*r.pick(&["serial", "id", "pr", "prs", "va", "vb", "cr", "crs", "ex", "exs", "cm"])) };
            let f = match f {
                None => Some(*r.pick(&["nonce", "rs", "ct", "key"])),
                x => x,
            };
            b_set(&mut s, r, d, &mut b, f);
        }
        if r.chance(25) {
            b_tbs(&mut s, &b);
        }
        if r.chance(15) {
            let mut b2 = b_clone(&mut s, &b);
            b_set(&mut s, r, d, &mut b2, Some("pr"));
            b_get(&mut s, &b);
            if r.chance(50) {
                b = b2;
                signed = false;
            }
        }
        match r.n(3) {
            0 if !is_sk(&k.pk.kt) => {
                if let Some(pk) = priv_of(&k, r) {
                    signed |= b_sign_key(&mut s, &mut b, &pk, "yes");
                }
            }
            1 => {
                let t = b.tbs();
                let sig = s.sign(r, &k, &t);
                signed |= b_addsig(&mut s, &mut b, &sig, Some(true));
            }
            _ => {
                let kk = k.clone();
                signed |= b_sign(&mut s, &mut b, Some(true), |s, x| Some(s.sign(r, &kk, x)));
            }
        }
        b_get(&mut s, &b);
    }
    if signed {
        let t = b_text(&mut s, &b);
        let p = r.chance(5);
        let c = s.cert_text(&t, p, Some(b.h));
        let w = b.m.id.split_whitespace().next().map(|x| x.to_string());
        s.expect(c.map(|c| b.m.matches(&c) && c.signature == b.sig && c.serialized == b.ser && c.comment == w).unwrap_or(false));
    }
    s
}

/// C04: adversarial signers at any point of a history
pub fn c04(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let a = app(r, d);
    let k = Signer::any(r, &a);
    let other = Signer::any(r, &a);
    // start from a builder or an import
    let mut b = if r.chance(65) {
        let key = any_pub(r, d);
        let ca = if r.chance(12) { weird_pub(r, d, &k.pk) } else { k.pk.clone() };
        match b_new(&mut s, r, d, &key, &ca) {
            Some(b) => b,
            None => return s,
        }
    } else {
        let m = cert(r, d, &k.pk);
        let mut i = crate::p_cert::issue_m(&mut s, r, m, k.clone());
        // now and then with something behind it, which attaching a signature drops
        let more = if r.chance(25) { r.blob(d, 40) } else { vec![] };
        i.b.extend(&more);
        let from_text = r.chance(50);
        let c = if from_text { s.cert_text(&format!("{} loaded", crate::p_cert::text_of(&i.m, &i.b)), false, None) } else { s.cert_bytes(&i.b) };
        match c {
            Some(c) => {
                let at = s.ev.len();
                b_load(&mut s, &c, &i.m, at)
            }
            None => {
                s.sus |= more.is_empty();
                return s;
            }
        }
    };
    let mut stale: Option<(Vec<u8>, Vec<u8>)> = if b.sig.is_empty() { None } else { Some((b.ser.clone(), b.sig.clone())) };
    let n = r.range(2, 7);
    for _ in 0..n {
        let sets = if r.chance(70) { r.n(3) } else { 0 };
        for _ in 0..sets {
            b_set(&mut s, r, d, &mut b, None);
        }
        let t = b.tbs();
        let right = b.m.ca == k.pk;
        match r.n(12) {
            0 | 1 => {
                let sig = s.sign(r, &k, &t);
                if b_addsig(&mut s, &mut b, &sig, Some(right)) {
                    stale = Some((b.ser.clone(), sig));
                }
            }
            2 => {
                let kk = k.clone();
                b_sign(&mut s, &mut b, Some(right), |s, x| Some(s.sign(r, &kk, x)));
            }
            3 => {
                b_sign(&mut s, &mut b, Some(false), |_, _| None);
            }
            4 => {
                // another key
                let same = other.pk.p == b.m.ca.p;
                let oo = other.clone();
                b_sign(&mut s, &mut b, if same { None } else { Some(false) }, |s, x| Some(s.sign(r, &oo, x)));
            }
            5 => {
                // other bytes
                let kk = k.clone();
                let mode = r.n(5);
                b_sign(&mut s, &mut b, Some(false), |s, x| {
                    let y = match mode {
                        0 => x[..x.len() - 1].to_vec(),
                        1 => [x, &[0u8][..]].concat(),
                        2 => vec![],
                        3 => sha("sha256", x),
                        _ => {
                            let mut z = x.to_vec();
                            let i = r.n(z.len());
                            z[i] ^= 1 << r.n(8);
                            z
                        }
                    };
                    Some(s.sign(r, &kk, &y))
                });
            }
            6 => {
                // garbage
                let g = match r.n(7) {
                    5 | 6 => junk_sig(r, d, &k.pk.kt),
                    0 => vec![],
                    1 => r.blob(d, 300),
                    2 => W::new().s(&k.pk.kt).b(&r.blob(d, 100)).0,
                    3 => W::new().s(&k.pk.kt).0,
                    _ => W::new().s(*r.pick(&ALL_TYPES)).b(&vec![0; 64]).raw(&[1]).u32(1).0,
                };
                if r.chance(50) {
                    b_addsig(&mut s, &mut b, &g, Some(false));
                } else {
                    b_sign(&mut s, &mut b, Some(false), |_, _| Some(g.clone()));
                }
            }
            7 => {
                // a signature that was valid for earlier content
                if let Some((ser, sig)) = stale.clone() {
                    let valid = ser.starts_with(&[t.clone(), sb(&sig)].concat()) && right;
                    b_addsig(&mut s, &mut b, &sig, Some(valid));
                }
            }
            8 => {
                // the real one, damaged
                let sig = s.sign(r, &k, &t);
                let g = damage(r, d, &sig);
                if !g.starts_with(&sig) {
                    b_addsig(&mut s, &mut b, &g, None);
                }
            }
            9 => {
                // the library's own private keys: right and wrong
                let use_right = r.chance(50);
                let kk = if use_right { &k } else { &other };
                if !is_sk(&kk.pk.kt) {
                    if let Some(pk) = priv_of(kk, r) {
                        let fits = kk.pk == b.m.ca;
                        b_sign_key(&mut s, &mut b, &pk, if fits { "yes" } else { "no" });
                    }
                }
            }
            10 => {
                let mut b2 = b_clone(&mut s, &b);
                b_set(&mut s, r, d, &mut b2, None);
                let sig = s.sign(r, &k, &t);
                // signature for the original on the changed clone
                let w = b2.tbs() == t && b2.m.ca == k.pk;
                b_addsig(&mut s, &mut b2, &sig, Some(w));
                b_get(&mut s, &b);
            }
            _ => {
                // wrong scheme label on a right signature
                let sig = s.sign(r, &k, &t);
                let n = u32::from_be_bytes(sig[..4].try_into().unwrap()) as usize;
                let lab = *r.pick(&ALL_TYPES);
                let g = [sb(lab.as_bytes()), sig[4 + n..].to_vec()].concat();
                b_addsig(&mut s, &mut b, &g, None);
            }
        }
    }
    b_get(&mut s, &b);
    if r.chance(60) {
        // finish properly whatever happened before
        b.m.ca = k.pk.clone();
        let ca = k.pk.ssh();
        b.c.signature_key = ca.clone();
        let o = cert_j(&mut s, &b.c);
        s.push("b_set", &[("h", b.h.to_string()), ("f", q("ca")), ("v", pub_j(&ca)), ("out", o)]);
        let t = b.tbs();
        let sig = s.sign(r, &k, &t);
        b_addsig(&mut s, &mut b, &sig, Some(true));
        let txt = b_text(&mut s, &b);
        let c = s.cert_text(&txt, false, Some(b.h));
        s.expect(c.is_some());
    }
    s
}

/// C27: renderings
pub fn c27(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    // names without spaces or line ends so that the listing can be read back
    let w = |r: &mut Rng, d: &Dict| -> String {
        let x = match r.n(5) {
            0 => d.string(r),
            1 => {
                let n = if r.chance(40) { r.range(60, 400) } else { r.len(d, 60) };
                "y".repeat(n)
            }
            _ => r.word(),
        };
        x.chars().filter(|c| !c.is_whitespace()).collect()
    };
    let a = app(r, d);
    let k = Signer::any(r, &a);
    let key = any_pub(r, d);
    let Some(mut b) = b_new(&mut s, r, d, &key, &k.pk) else { return s };
    let n = r.range(0, 6);
    for _ in 0..n {
        let f = *r.pick(&["serial", "id", "va", "vb", "prs", "ct", "cm"]);
        b_set(&mut s, r, d, &mut b, Some(f));
    }
    let (np, nc, ne) = (r.n(4), r.n(4), r.n(6));
    let mut cr = HashMap::new();
    for _ in 0..nc {
        cr.insert(w(r, d), if r.chance(30) { String::new() } else { w(r, d) });
    }
    let mut ex = HashMap::new();
    for _ in 0..ne {
        ex.insert(w(r, d), if r.chance(70) { String::new() } else { w(r, d) });
    }
    b.c = b.c.clone().set_critical_options(cr.clone()).set_extensions(ex.clone());
    b.m.cr = cr.clone().into_iter().collect();
    b.m.ex = ex.clone().into_iter().collect();
    // recorded as two setter calls
    let mut half = b.c.clone();
    half.extensions = HashMap::new();
    let o1 = cert_j(&mut s, &half);
    s.push("b_set", &[("h", b.h.to_string()), ("f", q("crs")), ("v", map_j(&cr)), ("out", o1)]);
    let o2 = cert_j(&mut s, &b.c);
    s.push("b_set", &[("h", b.h.to_string()), ("f", q("exs")), ("v", map_j(&ex)), ("out", o2)]);
    for _ in 0..np {
        b_set(&mut s, r, d, &mut b, Some("pr"));
    }
    match r.n(5) {
        0 => {
            // unbounded on one or both ends
            for (f, x) in [("va", *r.pick(&[0u64, 1])), ("vb", *r.pick(&[u64::MAX, u64::MAX - 1]))] {
                b.c = if f == "va" { b.c.clone().valid_after(x) } else { b.c.clone().valid_before(x) };
                if f == "va" {
                    b.m.va = x
                } else {
                    b.m.vb = x
                }
                let o = cert_j(&mut s, &b.c);
                s.push("b_set", &[("h", b.h.to_string()), ("f", q(f)), ("v", arr(&x.to_be_bytes())), ("out", o)]);
            }
        }
        _ => {}
    }
    b_pretty(&mut s, &b);
    if r.chance(60) {
        let t = b.tbs();
        let sig = s.sign(r, &k, &t);
        if b_addsig(&mut s, &mut b, &sig, Some(true)) {
            let txt = b_text(&mut s, &b);
            b_pretty(&mut s, &b);
            if let Some(c) = s.cert_text(&txt, false, Some(b.h)) {
                let at = s.ev.len();
                let b2 = b_load(&mut s, &c, &b.m, at);
                b_pretty(&mut s, &b2);
            }
        }
    }
    // keys and fingerprints
    let mut pk = key.ssh();
    if r.chance(60) {
        let c = r.text(d, 30);
        pk.comment = Some(c);
    }
    s.pub_views(&pk);
    if r.chance(40) {
        let sg = crate::p_priv::any_priv(r, d);
        let cm = r.text(d, 60);
        let t = crate::p_priv::plain_file(&sg, r, &cm);
        if let Some(pk) = call("setup", t.as_bytes(), || PrivateKey::from_string(&t)).ok() {
            s.priv_disp(&pk);
        }
    }
    for t in ["user", "User", "host", "Host"] {
        if r.chance(25) {
            crate::p_wire::role(&mut s, t);
        }
    }
    s
}
