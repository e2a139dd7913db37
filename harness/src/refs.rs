//! Second implementations of the decoders, used only to choose which of the
//! many executed sessions are recorded for validation: whenever the library
//! differs from one of these, the session goes to TLC, which decides.
use crate::api::*;
use crate::certgen::CertM;
use crate::keys::*;
use crate::p_sig::ref_verify;
use crate::wire::*;
use sshcerts::ssh::*;

pub fn rd(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let n = u32::from_be_bytes(b.get(o..)?.get(..4)?.try_into().ok()?) as usize;
    Some((b.get(o + 4..)?.get(..n)?.to_vec(), o + 4 + n))
}
fn text(b: &[u8], o: usize) -> Option<(String, usize)> {
    let (v, o) = rd(b, o)?;
    Some((String::from_utf8(v).ok()?, o))
}
fn mp(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let (v, o) = rd(b, o)?;
    match v.first() {
        None => Some((v, o)),
        Some(x) if *x >= 128 => None,
        Some(0) if v.len() == 1 || v[1] < 128 => None,
        Some(0) => Some((v[1..].to_vec(), o)),
        _ => Some((v, o)),
    }
}
fn num<const N: usize>(b: &[u8], o: usize) -> Option<([u8; N], usize)> {
    Some((b.get(o..)?.get(..N)?.try_into().ok()?, o + N))
}
fn options(b: &[u8]) -> Option<Vec<(String, String)>> {
    let mut v: Vec<(String, String)> = vec![];
    let mut o = 0;
    while o < b.len() {
        let (n, p) = text(b, o)?;
        let (x, p) = rd(b, p)?;
        let x = if x.is_empty() { String::new() } else { text(&x, 0)?.0 };
        if v.iter().any(|y| y.0 == n) {
            return None;
        }
        v.push((n, x));
        o = p;
    }
    Some(v)
}
/// structure, signature blob and length of the signed part
pub fn ref_cert(b: &[u8]) -> Option<(CertM, Vec<u8>, usize)> {
    let (kt, o) = text(b, 0)?;
    if !ALL_TYPES.contains(&kt.as_str()) || !kt.contains("-cert-v01") {
        return None;
    }
    let plain = kt.replace("-cert-v01@openssh.com", "");
    let plain = if plain.starts_with("sk-") { format!("{plain}@openssh.com") } else { plain };
    let (nonce, o) = rd(b, o)?;
    // the subject key, read as if its type stood before it
    let pre = sb(plain.as_bytes());
    let (key, used) = crate::p_pub::ref_pub_at(&[pre.clone(), b[o..].to_vec()].concat())?;
    let o = o + used - pre.len();
    let (serial, o) = num::<8>(b, o)?;
    let (ct, o) = num::<4>(b, o)?;
    let (id, o) = text(b, o)?;
    let (pb, o) = rd(b, o)?;
    let (va, o) = num::<8>(b, o)?;
    let (vb, o) = num::<8>(b, o)?;
    let (cr, o) = rd(b, o)?;
    let (ex, o) = rd(b, o)?;
    let (rs, o) = rd(b, o)?;
    let (ca, o) = rd(b, o)?;
    let end = o;
    let (sig, _) = rd(b, o)?;
    let ct = u32::from_be_bytes(ct);
    if ct != 1 && ct != 2 {
        return None;
    }
    let mut pr = vec![];
    let mut p = 0;
    while p < pb.len() {
        let (x, q) = text(&pb, p)?;
        pr.push(x);
        p = q;
    }
    let ca = crate::p_pub::ref_pub(&ca)?;
    Some((
        CertM {
            kt, nonce, key, serial: u64::from_be_bytes(serial), ct, id, pr, va: u64::from_be_bytes(va), vb: u64::from_be_bytes(vb),
            cr: options(&cr)?, ex: options(&ex)?, rs, ca,
        },
        sig, end,
    ))
}
pub fn same_cert(c: Option<&Certificate>, b: &[u8], cm: Option<&str>) -> bool {
    let want = ref_cert(b).filter(|(m, sig, n)| ref_verify(&m.ca, sig, &b[..*n]));
    match (c, want) {
        (None, None) => true,
        (Some(c), Some((m, sig, _))) => m.matches(c) && c.signature == sig && c.serialized == b && c.comment.as_deref() == cm && c.key.comment.is_none() && c.signature_key.comment.is_none(),
        _ => false,
    }
}
pub fn same_cert_text(c: Option<&Certificate>, t: &str) -> bool {
    let w: Vec<&str> = t.split_whitespace().collect();
    let b = w.get(1).and_then(|x| base64::decode(x).ok());
    match b {
        Some(b) if ref_cert(&b).map(|m| m.0.kt == w[0]).unwrap_or(false) => same_cert(c, &b, w.get(2).copied()),
        _ => c.is_none(),
    }
}
pub fn dearmor(t: &str, begin: &str, end: &str) -> Option<Vec<u8>> {
    let mut l = t.lines();
    if l.next()? != begin {
        return None;
    }
    let mut s = String::new();
    for x in l {
        if x == end {
            return base64::decode(&s).ok();
        }
        s.push_str(x);
    }
    None
}
/// key, namespace, hash name, signature blob
pub fn ref_sshsig(t: &str) -> Option<(PubM, String, String, Vec<u8>)> {
    let b = dearmor(t, "-----BEGIN SSH SIGNATURE-----", "-----END SSH SIGNATURE-----")?;
    if b.get(..6)? != b"SSHSIG" {
        return None;
    }
    let (v, o) = num::<4>(&b, 6)?;
    let (k, o) = rd(&b, o)?;
    let (ns, o) = text(&b, o)?;
    let (_, o) = text(&b, o)?;
    let (ha, o) = text(&b, o)?;
    let (sig, _) = rd(&b, o)?;
    if v != [0, 0, 0, 1] || ns.is_empty() || (ha != "sha256" && ha != "sha512") {
        return None;
    }
    Some((crate::p_pub::ref_pub(&k)?, ns, ha, sig))
}
pub fn same_sig(x: &SshSignature, w: &(PubM, String, String, Vec<u8>)) -> bool {
    pub_m(&x.pubkey) == w.0 && x.pubkey.comment.is_none() && x.namespace == w.1 && ha_name(&x.hash_algorithm) == w.2 && x.signature == w.3
}
pub fn ref_sigver(t: &str, msg: &[u8], ns: &str, pk: Option<&PublicKey>) -> Option<(PubM, String, String, Vec<u8>)> {
    let w = ref_sshsig(t)?;
    if pk.map(|p| pub_m(p) != w.0).unwrap_or(false) || w.1 != ns {
        return None;
    }
    let data = crate::p_sig::signed_data(ns, b"", &w.2, &sha(&w.2, msg));
    ref_verify(&w.0, &w.3, &data).then_some(w)
}
/// type, public part, secret part, comment
pub fn ref_privdata(b: &[u8], o: usize) -> Option<(PubM, Vec<Vec<u8>>, String)> {
    let (kt, mut o) = text(b, o)?;
    if !ALL_TYPES.contains(&kt.as_str()) || kt.contains("-cert-v01") {
        return None;
    }
    let sk = is_sk(&kt);
    let f = fam(&kt);
    let mut v: Vec<Vec<u8>> = vec![];
    let schema = match (f, sk) {
        ("rsa", _) => "mmmmmm",
        ("ecdsa", true) => "sbs1bb",
        ("ecdsa", _) => "sbb",
        (_, true) => "bs1bb",
        _ => "bb",
    };
    for c in schema.chars() {
        let (x, n) = match c {
            'm' => mp(b, o)?,
            's' => text(b, o).map(|x| (x.0.into_bytes(), x.1))?,
            '1' => (vec![*b.get(o)?], o + 1),
            _ => rd(b, o)?,
        };
        v.push(x);
        o = n;
    }
    let (cm, _) = text(b, o)?;
    let (p, s) = if f == "rsa" {
        if v[4..].iter().any(|x| x.is_empty() || x == &[1]) {
            return None;
        }
        (vec![v[1].clone(), v[0].clone()], v)
    } else {
        let n = if f == "ecdsa" { 2 } else { 1 } + sk as usize;
        if f == "ecdsa" && !["nistp256", "nistp384", "nistp521"].iter().any(|c| c.as_bytes() == v[0] && kt.contains(c)) {
            return None;
        }
        (v[..n].to_vec(), v[n..].to_vec())
    };
    Some((PubM { kt, p }, s, cm))
}
pub enum Opened {
    Key(PubM, Vec<Vec<u8>>, String, u32),
    St(&'static str),
}
pub type Streams = Vec<(String, Vec<u8>, u32, Vec<u8>)>;
pub fn ref_priv(t: &str, pass: Option<&str>, known: &Streams) -> Opened {
    ref_priv_(t, pass, known).unwrap_or(Opened::St("err"))
}
fn ref_priv_(t: &str, pass: Option<&str>, known: &Streams) -> Option<Opened> {
    let b = dearmor(t, crate::p_priv::BEGIN, crate::p_priv::END)?;
    if b.get(..15)? != b"openssh-key-v1\0" {
        return None;
    }
    let (c, o) = text(&b, 15)?;
    let (k, o) = text(&b, o)?;
    let (op, o) = rd(&b, o)?;
    let (n, o) = num::<4>(&b, o)?;
    let (pk, o) = rd(&b, o)?;
    let (mut body, _) = rd(&b, o)?;
    let pk = crate::p_pub::ref_pub(&pk)?;
    if n != [0, 0, 0, 1] || body.is_empty() {
        return None;
    }
    if c != "none" || k != "none" {
        if c != "aes256-ctr" || k != "bcrypt" {
            return Some(Opened::St("unsup"));
        }
        let Some(p) = pass else { return Some(Opened::St("enc")) };
        let (salt, o) = rd(&op, 0)?;
        let (rounds, _) = num::<4>(&op, o)?;
        let rounds = u32::from_be_bytes(rounds);
        let ks = known.iter().find(|x| x.0 == p && x.1 == salt && x.2 == rounds)?;
        if ks.3.len() < body.len() {
            return None;
        }
        body.iter_mut().zip(&ks.3).for_each(|(a, b)| *a ^= b);
    }
    let (m1, o) = num::<4>(&body, 0)?;
    let (m2, o) = num::<4>(&body, o)?;
    let (p, s, cm) = ref_privdata(&body, o)?;
    if m1 != m2 || p != pk {
        return None;
    }
    Some(Opened::Key(p, s, cm, u32::from_be_bytes(m1)))
}
pub fn same_priv(k: &PrivateKey, p: &PubM, s: &[Vec<u8>], cm: &str, magic: Option<u32>) -> bool {
    pub_m(&k.pubkey) == *p && k.pubkey.comment.as_deref().unwrap_or(cm) == cm && priv_sec(k).0 == s && k.comment == cm && magic.map(|m| k.magic == m).unwrap_or(true) && k.key_type.name == p.kt
}
