//! What is wrong with an input that is refused: a second, looser reading of
//! spec/Why.tla, used only to choose which sessions are recorded.
use crate::keys::*;
use crate::refs::rd;
use sshcerts::error::Error;
use sshcerts::ssh::AllowedSignerParsingError as A;
use std::cell::RefCell;

pub type Cause = (String, Vec<u8>);
#[derive(Clone)]
pub struct Told {
    pub k: String,
    pub a: Vec<u8>,
    pub m: String,
    pub odd: bool,
}
thread_local! {
    pub static ON: RefCell<bool> = const { RefCell::new(false) };
    pub static LAST: RefCell<Option<Told>> = const { RefCell::new(None) };
}
/// whether this thread keeps the reasons it is given
pub fn note_all(on: bool) {
    ON.with(|o| *o.borrow_mut() = on);
}
/// note the error of a call
pub fn note(op: &str, input: &[u8], e: Option<&Error>) {
    if !ON.with(|o| *o.borrow()) {
        return;
    }
    let t = e.map(|e| {
        let (k, a) = kind(op, e);
        let m = e.to_string();
        let shown = !m.is_empty() && (a.is_empty() || m.as_bytes().windows(a.len()).any(|w| w == &a[..])) && match (op, e) {
            ("as_file", Error::InvalidAllowedSigners(_, n)) => m.contains(&n.to_string()),
            _ => true,
        };
        let odd = !shown
            || match causes(op, input, e) {
                Some(c) => !c.iter().any(|x| x.0 == k && x.1 == a),
                None => false,
            };
        Told { k, a, m, odd }
    });
    LAST.with(|l| *l.borrow_mut() = t);
}
fn sub(e: &A) -> (&'static str, &str) {
    match e {
        A::InvalidQuotes => ("InvalidQuotes", ""),
        A::MissingPrincipals => ("MissingPrincipals", ""),
        A::InvalidPrincipals => ("InvalidPrincipals", ""),
        A::MissingKey => ("MissingKey", ""),
        A::DuplicateOptions(v) => ("DuplicateOptions", v),
        A::InvalidOption(v) => ("InvalidOption", v),
        A::InvalidKey => ("InvalidKey", ""),
        A::InvalidTimestamp => ("InvalidTimestamp", ""),
        A::InvalidTimestamps => ("InvalidTimestamps", ""),
        A::UnexpectedEnd => ("UnexpectedEnd", ""),
    }
}
fn kind(op: &str, e: &Error) -> Cause {
    let n = |s: &str| (s.to_string(), vec![]);
    match e {
        Error::Io(_) => n("Io"),
        Error::Decode(_) => n("Decode"),
        Error::Utf8Error(_) => n("Utf8Error"),
        Error::InvalidCertType(v) => ("InvalidCertType".into(), v.to_string().into_bytes()),
        Error::InvalidFormat => n("InvalidFormat"),
        Error::UnexpectedEof => n("UnexpectedEof"),
        Error::NotCertificate => n("NotCertificate"),
        Error::KeyTypeMismatch => n("KeyTypeMismatch"),
        Error::InvalidSignature => n("InvalidSignature"),
        Error::InvalidAllowedSigner(x) if op == "as_line" => (sub(x).0.into(), sub(x).1.as_bytes().to_vec()),
        Error::InvalidAllowedSigners(x, _) if op == "as_file" => (sub(x).0.into(), sub(x).1.as_bytes().to_vec()),
        Error::SigningError => n("SigningError"),
        Error::EncryptedPrivateKey => n("EncryptedPrivateKey"),
        Error::EncryptedPrivateKeyNotSupported => n("EncryptedPrivateKeyNotSupported"),
        Error::UnknownKeyType(v) => ("UnknownKeyType".into(), v.as_bytes().to_vec()),
        Error::UnknownCurve(v) => ("UnknownCurve".into(), v.as_bytes().to_vec()),
        Error::ParsingError => n("ParsingError"),
        Error::Unsupported => n("Unsupported"),
        _ => n("Other"),
    }
}

fn c(k: &str) -> Vec<Cause> {
    vec![(k.into(), vec![])]
}
fn ca(k: &str, a: &[u8]) -> Vec<Cause> {
    vec![(k.into(), a.to_vec())]
}
fn malformed() -> Vec<Cause> {
    [c("InvalidFormat"), c("ParsingError")].concat()
}
fn cut() -> Vec<Cause> {
    [malformed(), c("UnexpectedEof")].concat()
}
type F = Result<(Vec<u8>, usize), Vec<Cause>>;
fn field(ty: char, b: &[u8], o: usize) -> F {
    let fixed = |n: usize| b.get(o..).and_then(|x| x.get(..n)).map(|v| (v.to_vec(), o + n)).ok_or_else(cut);
    match ty {
        '4' => fixed(4),
        '8' => fixed(8),
        '1' => fixed(1),
        _ => {
            let (v, p) = rd(b, o).ok_or_else(cut)?;
            match ty {
                's' if std::str::from_utf8(&v).is_err() => Err(c("Utf8Error")),
                'm' => match v.first() {
                    Some(x) if *x >= 128 => Err(malformed()),
                    Some(0) if v.len() == 1 || v[1] < 128 => Err(malformed()),
                    Some(0) => Ok((v[1..].to_vec(), p)),
                    _ => Ok((v, p)),
                },
                _ => Ok((v, p)),
            }
        }
    }
}
/// the fields that can be read, the offset after them and why the next cannot
fn walk(schema: &str, b: &[u8], mut o: usize) -> (Vec<Vec<u8>>, usize, Vec<Cause>) {
    let mut v = vec![];
    for t in schema.chars() {
        match field(t, b, o) {
            Ok((x, p)) => {
                v.push(x);
                o = p;
            }
            Err(w) => return (v, o, w),
        }
    }
    (v, o, vec![])
}
fn known(n: &[u8]) -> Option<&str> {
    std::str::from_utf8(n).ok().filter(|n| ALL_TYPES.contains(n))
}
fn is_cert(n: &str) -> bool {
    n.contains("-cert-v01")
}
fn curve(kt: &str, b: &[u8], o: usize) -> Vec<Cause> {
    if fam(kt) != "ecdsa" {
        return vec![];
    }
    match field('s', b, o) {
        Ok((v, _)) => {
            let all = ["nistp256", "nistp384", "nistp521"];
            match all.iter().find(|x| x.as_bytes() == v) {
                Some(x) if kt.contains(*x) => vec![],
                Some(_) => c("KeyTypeMismatch"),
                None => ca("UnknownCurve", &v),
            }
        }
        Err(_) => vec![],
    }
}
fn schema(kt: &str) -> &'static str {
    match (fam(kt), is_sk(kt)) {
        ("rsa", _) => "mm",
        ("ecdsa", true) => "sbs",
        ("ecdsa", _) => "sb",
        (_, true) => "bs",
        _ => "b",
    }
}
fn pub_data(kt: &str, b: &[u8], o: usize) -> (usize, Vec<Cause>) {
    let (_, p, w) = walk(schema(kt), b, o);
    (p, [w, curve(kt, b, o)].concat())
}
fn pubkey(b: &[u8]) -> Vec<Cause> {
    let (n, o) = match field('s', b, 0) {
        Ok(x) => x,
        Err(w) => return w,
    };
    match known(&n) {
        None => ca("UnknownKeyType", &n),
        Some(k) if is_cert(k) => c("KeyTypeMismatch"),
        Some(k) => pub_data(k, b, o).1,
    }
}
fn line(t: &[u8], body: impl Fn(&[u8]) -> Vec<Cause>) -> Vec<Cause> {
    let t = String::from_utf8_lossy(t).into_owned();
    let w: Vec<&str> = t.split_whitespace().collect();
    let mut v = vec![];
    if w.first().map(|x| !ALL_TYPES.contains(x)).unwrap_or(false) {
        v.extend(ca("UnknownKeyType", w[0].as_bytes()));
    }
    if w.len() < 2 {
        v.extend(malformed());
        return v;
    }
    match base64::decode(w[1]) {
        Err(_) => v.extend(c("Decode")),
        Ok(b) => {
            if let Ok((n, _)) = field('s', &b, 0) {
                if n != w[0].as_bytes() {
                    v.extend(c("KeyTypeMismatch"));
                }
            }
            v.extend(body(&b));
        }
    }
    v
}
fn sig_blob(kt: &str, s: &[u8]) -> Vec<Cause> {
    let mut v = c("InvalidSignature");
    let (n, o) = match field('s', s, 0) {
        Ok(x) => x,
        Err(w) => return [v, w].concat(),
    };
    let Some(sch) = known(&n) else { return [v, ca("UnknownKeyType", &n)].concat() };
    if !is_cert(sch) && fam(sch) == fam(kt) && sch != "ecdsa-sha2-nistp521" {
    } else {
        v.extend(c("KeyTypeMismatch"));
    }
    let (body, p) = match field('b', s, o) {
        Ok(x) => x,
        Err(w) => return [v, w].concat(),
    };
    if fam(kt) == "ecdsa" {
        let (rs, _, w) = walk("mm", &body, 0);
        v.extend(w);
        let n = if sch.contains("384") { 48 } else { 32 };
        if rs.iter().any(|x| x.len() > n) {
            v.extend(malformed());
        }
    }
    if is_sk(kt) {
        v.extend(walk("14", s, p).2);
    }
    v
}
fn groups(schema: &str, b: &[u8]) -> (Vec<Vec<Vec<u8>>>, Vec<Cause>) {
    let (mut o, mut v) = (0, vec![]);
    while o < b.len() {
        let (x, p, w) = walk(schema, b, o);
        if !w.is_empty() {
            return (v, w);
        }
        v.push(x);
        o = p;
    }
    (v, vec![])
}
fn opts(b: &[u8]) -> Vec<Cause> {
    let (g, mut w) = groups("sb", b);
    for (i, x) in g.iter().enumerate() {
        if !x[1].is_empty() {
            if let Err(e) = field('s', &x[1], 0) {
                w.extend(e);
            }
        }
        if g[..i].iter().any(|y| y[0] == x[0]) {
            w.extend(malformed());
        }
    }
    w
}
fn cert(b: &[u8], asks_sig: bool) -> Vec<Cause> {
    let (n, o) = match field('s', b, 0) {
        Ok(x) => x,
        Err(w) => return w,
    };
    let Some(k) = known(&n) else { return ca("UnknownKeyType", &n) };
    if !is_cert(k) {
        return c("NotCertificate");
    }
    let Some((_, o)) = rd(b, o) else { return cut() };
    let plain = k.replace("-cert-v01@openssh.com", "");
    let plain = if plain.starts_with("sk-") { format!("{plain}@openssh.com") } else { plain };
    let (o, w) = pub_data(&plain, b, o);
    if !w.is_empty() {
        return w;
    }
    let (d, end, mut w) = walk("84sb88bbbb", b, o);
    let sig = if w.is_empty() { field('b', b, end) } else { Err(vec![]) };
    if let Err(e) = &sig {
        w.extend(e.clone());
    }
    if let Some(x) = d.get(1) {
        let x = u32::from_be_bytes(x[..].try_into().unwrap());
        if x != 1 && x != 2 {
            w.extend(ca("InvalidCertType", x.to_string().as_bytes()));
        }
    }
    if let Some(x) = d.get(3) {
        w.extend(groups("s", x).1);
    }
    for i in [6, 7] {
        if let Some(x) = d.get(i) {
            w.extend(opts(x));
        }
    }
    if let Some(x) = d.get(9) {
        w.extend(pubkey(x));
        if let (Ok((s, _)), Some(key)) = (sig, crate::p_pub::ref_pub(x)) {
            if !asks_sig || !crate::p_sig::ref_verify(&key, &s, &b[..end]) {
                w.extend(sig_blob(&key.kt, &s));
            }
        }
    }
    w
}
fn armor(t: &[u8], what: &str) -> Result<Vec<u8>, Vec<Cause>> {
    let t = std::str::from_utf8(t).map_err(|_| c("Io"))?;
    let mut l = t.lines();
    if l.next() != Some(&format!("-----BEGIN {what}-----")) {
        return Err(malformed());
    }
    let (end, mut s) = (format!("-----END {what}-----"), String::new());
    for x in l {
        if x == end {
            return base64::decode(&s).map_err(|_| c("Decode"));
        }
        s.push_str(x);
    }
    Err(malformed())
}
fn sshsig(t: &[u8]) -> Result<(Vec<Vec<u8>>, Vec<Cause>), Vec<Cause>> {
    let b = armor(t, "SSH SIGNATURE")?;
    let Some(m) = b.get(..6) else { return Err(cut()) };
    let (d, _, mut w) = walk("4bsssb", &b, 6);
    if m != b"SSHSIG" {
        w.extend(malformed());
    }
    if d.first().map(|x| x != &[0, 0, 0, 1]).unwrap_or(false) {
        w.extend(c("Unsupported"));
    }
    if let Some(k) = d.get(1) {
        w.extend(pubkey(k));
    }
    if d.get(2).map(|x| x.is_empty()).unwrap_or(false) {
        w.extend(malformed());
    }
    if d.get(4).map(|x| x != b"sha256" && x != b"sha512").unwrap_or(false) {
        w.extend(c("Unsupported"));
    }
    Ok((d, w))
}
fn priv_data(b: &[u8], o: usize) -> Vec<Cause> {
    let (n, o) = match field('s', b, o) {
        Ok(x) => x,
        Err(w) => return w,
    };
    let Some(k) = known(&n) else { return ca("UnknownKeyType", &n) };
    if is_cert(k) {
        return [ca("UnknownKeyType", &n), c("KeyTypeMismatch"), c("Utf8Error"), cut(), curve(k, b, o)].concat();
    }
    let sch = match (fam(k), is_sk(k)) {
        ("rsa", _) => "mmmmmms",
        ("ecdsa", true) => "sbs1bbs",
        ("ecdsa", _) => "sbbs",
        (_, true) => "bs1bbs",
        _ => "bbs",
    };
    let (d, _, mut w) = walk(sch, b, o);
    w.extend(curve(k, b, o));
    if fam(k) == "rsa" && d.iter().take(6).skip(4).any(|x| x.is_empty() || x == &[1]) {
        w.extend(malformed());
    }
    w
}
/// None: encrypted, and what is inside is not known here
fn private(t: &[u8], e: &Error) -> Option<Vec<Cause>> {
    let b = match armor(t, "OPENSSH PRIVATE KEY") {
        Ok(b) => b,
        Err(w) => return Some(w),
    };
    let Some(z) = b.iter().position(|x| *x == 0) else { return Some(cut()) };
    let (d, _, mut w) = walk("ssb4bb", &b, z + 1);
    if &b[..z] != b"openssh-key-v1" {
        w.extend(malformed());
    }
    if d.get(3).map(|x| x != &[0, 0, 0, 1]).unwrap_or(false) {
        w.extend(malformed());
    }
    if let Some(k) = d.get(4) {
        w.extend(pubkey(k));
    }
    if d.get(5).map(|x| x.is_empty()).unwrap_or(false) {
        w.extend(cut());
    }
    if !w.is_empty() || d.len() < 6 {
        return Some(w);
    }
    if d[0] != b"none" || d[1] != b"none" {
        if d[0] != b"aes256-ctr" || d[1] != b"bcrypt" {
            return Some(c("EncryptedPrivateKeyNotSupported"));
        }
        return match e {
            // whether a passphrase was given is left to the specification
            Error::EncryptedPrivateKey => None,
            _ => match walk("b4", &d[2], 0) {
                (_, _, w) if !w.is_empty() => Some(w),
                _ => None,
            },
        };
    }
    let body = &d[5];
    let (m, o, w) = walk("44", body, 0);
    if !w.is_empty() {
        return Some(w);
    }
    let mut w = priv_data(body, o);
    if m[0] != m[1] {
        w.extend(malformed());
    }
    if w.is_empty() {
        w.extend(malformed());
    }
    Some(w)
}
fn signer(t: &str) -> Option<Vec<Cause>> {
    let (toks, ok) = crate::p_allow::ref_tokens(t);
    let name = |x: &str| x.split('=').next().unwrap().to_ascii_lowercase();
    let val = |x: &str| x.split_once('=').map(|y| y.1).unwrap_or("").trim_matches('"').to_string();
    let all = ["cert-authority", "namespaces", "valid-after", "valid-before"];
    let n = toks.iter().skip(1).take_while(|x| all.contains(&name(x).as_str())).count();
    if toks.iter().skip(1).any(|x| x.chars().any(|c| c.is_whitespace() && c != ' ')) || toks.iter().skip(1).take(n).any(|x| name(x) == "cert-authority" && x.contains('=')) {
        return None;
    }
    let mut w = vec![];
    if !ok || toks.iter().enumerate().skip(1).any(|(i, x)| x.contains('"') && (i > n || x.starts_with('"') || val(x).contains('"'))) {
        w.extend(c("InvalidQuotes"));
    }
    if ok && toks.is_empty() {
        w.extend(c("MissingPrincipals"));
    }
    if let Some(p) = toks.first() {
        let p = p.trim_matches('"');
        if p.contains('"') {
            w.extend(c("InvalidQuotes"));
        }
        if p.split(',').any(|x| x.is_empty()) {
            w.extend(c("InvalidPrincipals"));
        }
    }
    let of = |nm: &str| toks.iter().skip(1).take(n).filter(|x| name(x) == nm).map(|x| val(x)).collect::<Vec<_>>();
    for nm in &all[1..] {
        if of(nm).len() > 1 {
            w.extend(ca("DuplicateOptions", nm.as_bytes()));
        }
    }
    let (va, vb) = (of("valid-after"), of("valid-before"));
    for (nm, vs) in [("valid-after", &va), ("valid-before", &vb)] {
        for v in vs {
            if crate::p_allow::ref_time(v).may_fail || crate::p_allow::ref_time(v).any.is_empty() {
                w.extend(ca("InvalidOption", nm.as_bytes()));
            }
        }
    }
    let times = |v: &[String]| v.iter().flat_map(|x| crate::p_allow::ref_time(x).any).collect::<Vec<_>>();
    if times(&va).iter().any(|a| times(&vb).iter().any(|b| b <= a)) {
        w.extend(c("InvalidTimestamps"));
    }
    if ok && toks.len() == n + 1 {
        w.extend(c("MissingKey"));
    }
    if ok && toks.len() == n + 2 {
        w.extend([c("MissingKey"), c("InvalidKey")].concat());
    }
    if toks.len() >= n + 3 && toks.len() > 1 {
        let k = format!("{} {}", toks[n + 1], toks[n + 2]);
        if !line(k.as_bytes(), pubkey).is_empty() {
            w.extend(c("InvalidKey"));
        }
    }
    if toks.len() > n + 3 || (!ok && toks.len() == n + 3) {
        w.extend(c("UnexpectedEnd"));
    }
    Some(w)
}
fn causes(op: &str, b: &[u8], e: &Error) -> Option<Vec<Cause>> {
    let sig = matches!(e, Error::InvalidSignature);
    Some(match op {
        "pub_blob" => pubkey(b),
        "pub_line" => line(b, pubkey),
        "cert_bytes" => cert(b, sig),
        "cert_text" => line(b, |x| cert(x, sig)),
        "sig_parse" => sshsig(b).map(|x| x.1).unwrap_or_else(|w| w),
        "sig_verify" => match sshsig(b) {
            Err(w) => w,
            Ok((d, w)) if w.is_empty() => {
                let k = crate::p_pub::ref_pub(&d[1])?;
                sig_blob(&k.kt, &d[5])
            }
            Ok((_, w)) => w,
        },
        "priv_bytes" => priv_data(b, 0),
        "priv_parse" => return private(b, e),
        "kt" => ca("UnknownKeyType", b),
        "curve" => ca("UnknownCurve", b),
        "as_line" => return signer(std::str::from_utf8(b).ok()?),
        "as_file" => {
            let Error::InvalidAllowedSigners(_, n) = e else { return Some(vec![]) };
            let t = std::str::from_utf8(b).ok()?;
            return signer(t.lines().nth(*n)?.trim());
        }
        _ => return None,
    })
}
