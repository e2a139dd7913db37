//! C18-C22: authenticator data, attestation chains, X.509 and DER.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::wire::*;
use ring::rand::SystemRandom;
use ring::signature as rs;
use sshcerts::fido::verification::{verify_auth_data, Transport};
use sshcerts::fido::AuthData;
use sshcerts::utils::*;
use sshcerts::x509::*;
use sshcerts::yubikey::verification::verify_certificate_chain;

// ---------------- genuine devices ----------------
pub struct Yubico {
    pub fido_root: Vec<u8>,
    pub piv_root: Vec<u8>,
    pub fido: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub piv: Vec<(Vec<u8>, Vec<u8>)>,
}
static YU: std::sync::OnceLock<Yubico> = std::sync::OnceLock::new();
pub fn load(path: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("yubico")).expect("yubico");
    let h = |x: &serde_json::Value, k: &str| hex(x[k].as_str().unwrap());
    let _ = YU.set(Yubico {
        fido_root: h(&v, "fido_root"),
        piv_root: h(&v, "piv_root"),
        fido: v["fido"].as_array().unwrap().iter().map(|x| (h(x, "ad"), h(x, "sig"), h(x, "ch"), h(x, "inter"))).collect(),
        piv: v["piv"].as_array().unwrap().iter().map(|x| (h(x, "leaf"), h(x, "inter"))).collect(),
    });
}
pub fn yu() -> &'static Yubico {
    YU.get().expect("yubico fixtures")
}

// ---------------- authenticator data ----------------
fn int_j(v: i128) -> String {
    let m = v.unsigned_abs() as u64;
    format!("{{\"neg\":{},\"m\":{}}}", v < 0, arr(&m.to_be_bytes()))
}
fn auth_j(a: &AuthData) -> String {
    let mut p: Vec<_> = a.cose_key.parameters.iter().collect();
    p.sort();
    format!(
        "{{\"rp\":{},\"flags\":{},\"ctr\":{},\"aaguid\":{},\"cred\":{},\"ty\":{},\"al\":{},\"key\":{},\"params\":[{}],\"up\":{},\"uv\":{}}}",
        arr(&a.rpid_hash),
        a.flags,
        arr(&a.sign_count.to_be_bytes()),
        arr(&a.aaguid),
        arr(&a.credential_id),
        int_j(a.cose_key.key_type),
        int_j(a.cose_key.algorithm),
        arr(&a.cose_key.key),
        p.iter().map(|(k, v)| format!("{{\"k\":{},\"v\":{}}}", int_j(**k), arr(v.as_bytes()))).collect::<Vec<_>>().join(","),
        a.user_presence(),
        a.user_verification()
    )
}
#[derive(Clone, Debug, PartialEq)]
pub struct RefAuth {
    rp: Vec<u8>,
    flags: u8,
    ctr: u32,
    aaguid: Vec<u8>,
    cred: Vec<u8>,
    ty: i128,
    al: i128,
    key: Vec<u8>,
    param: Option<i128>,
}
fn chead(b: &[u8], o: usize) -> Option<(u8, u64, usize)> {
    let x = *b.get(o)?;
    let n = match x & 31 {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        28..=31 => return None,
        i => return Some((x >> 5, i as u64, o + 1)),
    };
    let v = b.get(o + 1..o + 1 + n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    Some((x >> 5, v, o + 1 + n))
}
fn cint(b: &[u8], o: usize) -> Option<(i128, usize)> {
    match chead(b, o)? {
        (0, v, o) => Some((v as i128, o)),
        (1, v, o) if v < 1 << 63 => Some((-1 - v as i128, o)),
        _ => None,
    }
}
/// independent reading, used only to decide what to record
pub fn ref_auth(b: &[u8]) -> Option<RefAuth> {
    let n = u16::from_be_bytes(b.get(53..55)?.try_into().ok()?) as usize;
    let cred = b.get(55..55 + n)?.to_vec();
    if b[32] & 64 == 0 {
        return None;
    }
    let (m, len, mut o) = chead(b, 55 + n)?;
    if m != 5 || len > 256 {
        return None;
    }
    let (mut ty, mut al, mut param, mut x, mut y) = (0, 0, None, None, None);
    for _ in 0..len {
        let (k, p) = cint(b, o)?;
        o = p;
        match k {
            -1 | 1 | 3 => {
                let (v, p) = cint(b, o)?;
                o = p;
                match k {
                    -1 => param = Some(v),
                    1 => ty = v,
                    _ => al = v,
                }
            }
            -2 | -3 => {
                let (m, n, p) = chead(b, o)?;
                if m != 2 || n > b.len() as u64 {
                    return None;
                }
                let v = b.get(p..p + n as usize)?.to_vec();
                o = p + n as usize;
                if k == -2 {
                    x = Some(v)
                } else {
                    y = Some(v)
                }
            }
            _ => {
                if b.get(o) != Some(&0xf7) {
                    return None;
                }
                o += 1;
            }
        }
    }
    let x = x.unwrap_or_default();
    let key = match y {
        Some(y) => [&[4][..], &x, &y].concat(),
        None => x,
    };
    Some(RefAuth { rp: b[..32].to_vec(), flags: b[32], ctr: u32::from_be_bytes(b[33..37].try_into().unwrap()), aaguid: b[37..53].to_vec(), cred, ty, al, key, param })
}
fn same_auth(r: &RefAuth, a: &AuthData) -> bool {
    let mut p = std::collections::HashMap::new();
    if let Some(v) = r.param {
        p.insert(-1i128, v.to_string());
    }
    a.rpid_hash == r.rp
        && a.flags == r.flags
        && a.sign_count == r.ctr
        && a.aaguid == r.aaguid
        && a.credential_id == r.cred
        && a.cose_key.key_type == r.ty
        && a.cose_key.algorithm == r.al
        && a.cose_key.key == r.key
        && a.cose_key.parameters == p
        && a.user_presence() == (r.flags & 1 != 0)
        && a.user_verification() == (r.flags & 4 != 0)
}
pub fn auth(s: &mut Sess, b: &[u8], app: &str) -> Option<AuthData> {
    s.calls += 1;
    let r = call("auth", b, || AuthData::parse(b));
    let x = s.x(b);
    let want = ref_auth(b);
    let mut f = vec![("in", x), ("app", arr(app.as_bytes())), ("st", r.st())];
    let mut ok = !matches!(r, R::Panic);
    let o = r.ok();
    if let Some(a) = &o {
        s.calls += 1;
        let k = call("auth_key", b, || a.ssh_public_key(app));
        f.push(("out", auth_j(a)));
        f.push(("kst", k.st()));
        let wk = match &want {
            Some(w) if w.al == -7 => Some(PubM { kt: "sk-ecdsa-sha2-nistp256@openssh.com".into(), p: vec![b"nistp256".to_vec(), w.key.clone(), app.as_bytes().to_vec()] }),
            Some(w) if w.al == -8 => Some(PubM { kt: "sk-ssh-ed25519@openssh.com".into(), p: vec![w.key.clone(), app.as_bytes().to_vec()] }),
            _ => None,
        };
        ok = ok && k.is_ok() | k.is_err();
        let k = k.ok();
        ok = ok && k.as_ref().map(pub_m) == wk;
        if let Some(k) = &k {
            f.push(("kout", pub_j(k)));
        }
    }
    s.push("auth", &f);
    s.expect(
        ok && match (&want, &o) {
            (None, None) => true,
            (Some(w), Some(a)) => same_auth(w, a),
            _ => false,
        },
    );
    o
}
fn cenc(r: &mut Rng, major: u8, v: u64) -> Vec<u8> {
    let min = match v {
        0..=23 => 0,
        24..=0xff => 1,
        0x100..=0xffff => 2,
        0x10000..=0xffff_ffff => 3,
        _ => 4,
    };
    let w = if r.chance(85) { min } else { r.range(min, 4) };
    let mj = major << 5;
    match w {
        0 => vec![mj | v as u8],
        1 => vec![mj | 24, v as u8],
        2 => [&[mj | 25][..], &(v as u16).to_be_bytes()].concat(),
        3 => [&[mj | 26][..], &(v as u32).to_be_bytes()].concat(),
        _ => [&[mj | 27][..], &v.to_be_bytes()].concat(),
    }
}
fn cint_enc(r: &mut Rng, v: i128) -> Vec<u8> {
    if v >= 0 {
        cenc(r, 0, v as u64)
    } else {
        cenc(r, 1, (-1 - v) as u64)
    }
}
fn cbytes(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut x = cenc(r, 2, v.len() as u64);
    x.extend_from_slice(v);
    x
}
fn any_int(r: &mut Rng, d: &Dict) -> i128 {
    let v = r.u64_pool(d) as i128;
    match r.n(4) {
        0 => -1 - (v >> r.n(60)),
        1 => v,
        2 => v & 0xff,
        _ => *r.pick(&[-7, -8, -257, 0, 1, 2, 3, -1, 6, 7, -25, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, -128, -129, 127, 128, 255, 256, -256, -257, -32768, -32769, 65535]),
    }
}
pub fn auth_data(r: &mut Rng, d: &Dict) -> Vec<u8> {
    let mut b = r.bytes(32);
    let mut fl = match r.n(4) {
        0 => 0x41,
        1 => 0x45,
        _ => r.byte(),
    };
    if r.chance(93) {
        fl |= 0x40;
    }
    b.push(fl);
    b.extend(r.u32_pool(d).to_be_bytes());
    b.extend(r.bytes(16));
    let id = match r.n(6) {
        0 => r.blob(d, 1100),
        1 => vec![],
        2 => r.bytes(300),
        _ => r.bytes(64),
    };
    b.extend((id.len() as u16).to_be_bytes());
    b.extend(&id);
    let ec = r.chance(50);
    let mut items: Vec<Vec<u8>> = vec![];
    let kv = |r: &mut Rng, k: i128, v: Vec<u8>| [cint_enc(r, k), v].concat();
    let v = cint_enc(r, if ec { 2 } else { 1 });
    items.push(kv(r, 1, v));
    let al = if r.chance(90) {
        if ec {
            -7
        } else {
            -8
        }
    } else {
        any_int(r, d)
    };
    let v = cint_enc(r, al);
    items.push(kv(r, 3, v));
    let v = cint_enc(r, if ec { 1 } else { 6 });
    items.push(kv(r, -1, v));
    let kb = if r.chance(80) {
        if ec {
            Signer::ec(r, "nistp256").pk.p[1].clone()
        } else {
            r.bytes(32)
        }
    } else {
        r.blob(d, 300)
    };
    if ec && kb.len() == 65 {
        let v = cbytes(r, &kb[1..33]);
        items.push(kv(r, -2, v));
        let v = cbytes(r, &kb[33..]);
        items.push(kv(r, -3, v));
    } else {
        let v = cbytes(r, &kb);
        items.push(kv(r, -2, v));
    }
    if r.chance(35) {
        match r.n(9) {
            0 => {
                // repeated label
                let i = r.n(items.len());
                let x = items[i].clone();
                items.push(x);
            }
            1 => {
                let k = any_int(r, d);
                let k = k.clamp(i64::MIN as i128, u64::MAX as i128);
                let it = kv(r, k, vec![0xf7]);
                items.push(it);
            }
            2 => {
                let i = r.n(items.len());
                items.remove(i);
            }
            3 => r.shuffle(&mut items),
            4 => {
                let v = any_int(r, d);
                let v = cint_enc(r, v);
                let k = *r.pick(&[1, 3, -1]);
                let it = kv(r, k, v);
                items.push(it);
            }
            5 => {
                let x = r.blob(d, 80);
                let v = cbytes(r, &x);
                let k = *r.pick(&[-2, -3]);
                let it = kv(r, k, v);
                items.insert(r.n(items.len() + 1), it);
            }
            6 => {
                let n = *r.pick(&[250usize, 251, 252, 253, 256, 260]);
                for i in 0..n.saturating_sub(items.len()) {
                    let it = kv(r, 10 + i as i128, vec![0xf7]);
                    items.push(it);
                }
            }
            7 => {
                // a value of another kind
                let k = *r.pick(&[1i128, 3, -1, -2, -3, 4, 5, -4]);
                let v: Vec<u8> = match r.n(9) {
                    0 => vec![0xf6],
                    1 => vec![0xf5],
                    2 => vec![0x61, 0x61],
                    3 => vec![0x80],
                    4 => vec![0xa0],
                    5 => vec![0xf7],
                    6 => vec![0x5f, 0x41, 0x01, 0xff],
                    7 => vec![0xc2, 0x41, 0x01],
                    _ => vec![0x05],
                };
                let it = kv(r, k, v);
                items.insert(r.n(items.len() + 1), it);
            }
            _ => {
                let it = [vec![0x61, 0x78], vec![0xf7]].concat();
                items.push(it);
            }
        }
    }
    let mut n = items.len() as u64;
    if r.chance(8) {
        n = match r.n(5) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => *r.pick(&[256, 257, 1 << 16, 1 << 32, u64::MAX, 1 << 63]),
            3 => 0,
            _ => d.int(r),
        };
    }
    if r.chance(2) {
        b.push(*r.pick(&[0xbf, 0x84, 0xa0, 0xff, 0xbc]));
    } else {
        let h = cenc(r, 5, n);
        b.extend(h);
    }
    for i in items {
        b.extend(i);
    }
    if r.chance(15) {
        b.extend(r.blob(d, 30));
    }
    b
}
pub fn c18(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(1, 3);
    for _ in 0..n {
        let b = if r.chance(6) { r.pick(&yu().fido).0.clone() } else { auth_data(r, d) };
        s.x(&b);
        let a = app(r, d);
        auth(&mut s, &b, &a);
        let m = r.range(1, 4);
        for _ in 0..m {
            let x = match r.n(7) {
                0 => b[..r.n(b.len() + 1)].to_vec(),
                1 => b[..b.len() - r.n(b.len().min(80))].to_vec(),
                2 => {
                    let mut x = b.clone();
                    x[32] = r.byte();
                    x
                }
                3 => {
                    // the credential id length says something else
                    let mut x = b.clone();
                    let l = u16::from_be_bytes([x[53], x[54]]);
                    let n = match r.n(4) {
                        0 => l.wrapping_add(1),
                        1 => l.wrapping_sub(1),
                        2 => r.u64() as u16,
                        _ => *r.pick(&[0, 1, 255, 256, u16::MAX, l.swap_bytes()]),
                    };
                    x[53..55].copy_from_slice(&n.to_be_bytes());
                    x
                }
                4 => {
                    // somewhere in the key map
                    let mut x = b.clone();
                    let l = u16::from_be_bytes([x[53], x[54]]) as usize;
                    let lo = (55 + l).min(x.len() - 1);
                    let i = lo + r.n((x.len() - lo).min(90));
                    match r.n(3) {
                        0 => x[i] = r.byte(),
                        1 => x.insert(i, r.byte()),
                        _ => {
                            x.remove(i);
                        }
                    }
                    x
                }
                5 => [b.clone(), r.blob(d, 20)].concat(),
                _ => damage(r, d, &b),
            };
            let a = app(r, d);
            auth(&mut s, &x, &a);
        }
    }
    s
}

// ---------------- DER building ----------------
pub fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    match n {
        0..=127 => v.push(n as u8),
        128..=255 => v.extend([0x81, n as u8]),
        256..=65535 => v.extend([0x82, (n >> 8) as u8, n as u8]),
        _ => v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]),
    }
    v.extend_from_slice(c);
    v
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    der(0x30, &parts.concat())
}
pub fn uint(b: &[u8]) -> Vec<u8> {
    let k = b.iter().take_while(|x| **x == 0).count();
    let b = &b[k..];
    let mut v = vec![];
    if b.is_empty() || b[0] >= 128 {
        v.push(0);
    }
    v.extend_from_slice(b);
    der(2, &v)
}
pub fn oid(arcs: &[u64]) -> Vec<u8> {
    let mut v = vec![(arcs[0] * 40 + arcs[1]) as u8];
    for a in &arcs[2..] {
        let mut t = vec![(a & 127) as u8];
        let mut a = a >> 7;
        while a > 0 {
            t.push((a & 127) as u8 | 128);
            a >>= 7;
        }
        t.reverse();
        v.extend(t);
    }
    der(6, &v)
}
const EC: [u64; 6] = [1, 2, 840, 10045, 2, 1];
const P256: [u64; 7] = [1, 2, 840, 10045, 3, 1, 7];
const P384: [u64; 5] = [1, 3, 132, 0, 34];
const RSA: [u64; 7] = [1, 2, 840, 113549, 1, 1, 1];
const EDOID: [u64; 4] = [1, 3, 101, 112];
pub fn spki_of(k: &Signer) -> (Vec<u8>, Vec<u8>) {
    match &k.sk {
        Sk::Ec(e) => (spki(seq(&[oid(&EC), oid(if e.curve == "nistp256" { &P256 } else { &P384 })]), &e.q), e.q.clone()),
        Sk::Rsa(x) => {
            let b = seq(&[uint(&x.n), uint(&x.e)]);
            (spki(seq(&[oid(&RSA), der(5, &[])]), &b), b)
        }
        Sk::Ed(_) => (spki(seq(&[oid(&EDOID)]), &k.pk.p[0]), k.pk.p[0].clone()),
    }
}
fn spki(alg: Vec<u8>, bits: &[u8]) -> Vec<u8> {
    seq(&[alg, der(3, &[&[0][..], bits].concat())])
}
fn name_der(r: &mut Rng) -> Vec<u8> {
    let n = r.n(3);
    let v: Vec<Vec<u8>> = (0..n).map(|_| der(0x31, &seq(&[oid(&[2, 5, 4, *r.pick(&[3, 10, 11])]), der(0x0c, r.word().as_bytes())]))).collect();
    seq(&v)
}
/// how an issuer signs: algorithm identifier (and its OID content), signature
fn x_sign(r: &mut Rng, k: &Signer, tbs: &[u8], alg: &XAlg) -> Vec<u8> {
    let _ = r;
    match &k.sk {
        Sk::Ec(e) => {
            let rng = SystemRandom::new();
            let (a, n) = if e.curve == "nistp256" { (&rs::ECDSA_P256_SHA256_ASN1_SIGNING, 32) } else { (&rs::ECDSA_P384_SHA384_ASN1_SIGNING, 48) };
            let kp = rs::EcdsaKeyPair::from_private_key_and_public_key(a, &pad(&e.d, n), &e.q, &rng).unwrap();
            kp.sign(&rng, tbs).unwrap().as_ref().to_vec()
        }
        Sk::Rsa(x) => rsa_sign(x, alg.hash, tbs),
        Sk::Ed(_) => k.raw("", tbs).sig,
    }
}
pub struct XAlg {
    id: Vec<u8>,
    oid: Vec<u8>,
    hash: &'static str,
}
fn x_alg(r: &mut Rng, k: &Signer) -> XAlg {
    let (arcs, null, hash): (Vec<u64>, bool, &'static str) = match &k.sk {
        Sk::Ec(e) if e.curve == "nistp256" => (vec![1, 2, 840, 10045, 4, 3, 2], false, ""),
        Sk::Ec(_) => (vec![1, 2, 840, 10045, 4, 3, 3], false, ""),
        Sk::Rsa(_) => {
            let (n, h) = *r.pick(&[(11, "sha256"), (11, "sha256"), (12, "sha384"), (13, "sha512")]);
            (vec![1, 2, 840, 113549, 1, 1, n], true, h)
        }
        Sk::Ed(_) => (EDOID.to_vec(), false, ""),
    };
    let o = oid(&arcs);
    let id = if null { seq(&[o.clone(), der(5, &[])]) } else { seq(&[o.clone()]) };
    XAlg { id, oid: o[2..].to_vec(), hash }
}
#[derive(Clone)]
pub struct XCert {
    pub der: Vec<u8>,
    pub tbs: Vec<u8>,
    pub sig: Vec<u8>,
    pub alg: Vec<u8>,
}
fn ext(o: &[u64], critical: Option<bool>, v: &[u8]) -> Vec<u8> {
    let mut p = vec![oid(o)];
    if let Some(c) = critical {
        p.push(der(1, &[if c { 255 } else { 0 }]));
    }
    p.push(der(4, v));
    seq(&p)
}
fn tbs_of(r: &mut Rng, alg: &XAlg, spki: Vec<u8>, exts: &[Vec<u8>]) -> Vec<u8> {
    let mut p = vec![];
    p.push(der(0xa0, &der(2, &[2])));
    let n = r.range(1, 12);
    let mut sn = r.bytes(n);
    sn[0] = 1 + (sn[0] >> 2);
    p.push(uint(&sn));
    p.push(alg.id.clone());
    p.push(name_der(r));
    let t = if r.chance(70) { [der(0x17, b"160314000000Z"), der(0x18, b"20520417000000Z")] } else { [der(0x17, b"990101000000Z"), der(0x17, b"000101000000Z")] };
    p.push(seq(&t));
    p.push(name_der(r));
    p.push(spki);
    if !exts.is_empty() || r.chance(10) {
        p.push(der(0xa3, &seq(exts)));
    }
    seq(&p)
}
/// a certificate over this key, issued by `by`; the oracle records it
pub fn issue_x(s: &mut Sess, r: &mut Rng, by: &Signer, spki: Vec<u8>, exts: &[Vec<u8>]) -> XCert {
    let alg = x_alg(r, by);
    let tbs = tbs_of(r, &alg, spki, exts);
    let sig = x_sign(r, by, &tbs, &alg);
    let bits = spki_of(by).1;
    s.push("x509", &[("alg", arr(&alg.oid)), ("key", arr(&bits)), ("tbs", arr(&tbs)), ("sig", arr(&sig))]);
    XCert { der: wrap(&tbs, &alg.id, &sig), tbs, sig, alg: alg.id }
}
fn wrap(tbs: &[u8], alg: &[u8], sig: &[u8]) -> Vec<u8> {
    seq(&[tbs.to_vec(), alg.to_vec(), der(3, &[&[0][..], sig].concat())])
}
fn pem(r: &mut Rng, b: &[u8]) -> String {
    let nl = if r.chance(85) { "\n" } else { "\r\n" };
    let mut t = armor(b, "-----BEGIN CERTIFICATE-----", "-----END CERTIFICATE-----", 64, nl);
    if r.chance(50) {
        t += nl;
    }
    match r.n(8) {
        // text before the certificate, as openssl writes it
        0 => format!("subject=CN = {}{nl}issuer=CN = root{nl}{t}", r.word()),
        1 => format!("{nl}{t}"),
        _ => t,
    }
}
/// something given as a root that is not one
fn no_root(r: &mut Rng, d: &Dict, good: &[u8]) -> String {
    let p = pem(r, good);
    match r.n(8) {
        0 => String::new(),
        1 => r.text(d, 60),
        2 => p.replace("CERTIFICATE-----", "GARBAGE-----").replace("BEGIN", "BGN"),
        3 => {
            let c = b64(&good[..good.len() / 2]);
            format!("-----BEGIN CERTIFICATE-----\n{c}\n-----END CERTIFICATE-----")
        }
        4 => "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n".into(),
        5 => b64(good),
        6 => "\n".into(),
        _ => p[..r.n(p.find("-----END").unwrap())].to_string(),
    }
}
fn ca_key(r: &mut Rng) -> Signer {
    match r.n(8) {
        0..=3 => Signer::ec(r, "nistp256"),
        4 => Signer::ec(r, "nistp384"),
        5 => Signer::ed(r),
        _ => Signer::rsa(r),
    }
}
/// another key than this one
fn other(r: &mut Rng, k: &Signer) -> Signer {
    loop {
        let o = ca_key(r);
        if o.pk != k.pk {
            return o;
        }
    }
}
const FW_FIDO: [u64; 9] = [1, 3, 6, 1, 4, 1, 41482, 13, 1];
const AAGUID: [u64; 10] = [1, 3, 6, 1, 4, 1, 45724, 1, 1, 4];
const TRANS: [u64; 10] = [1, 3, 6, 1, 4, 1, 45724, 2, 1, 1];
const FW_PIV: [u64; 9] = [1, 3, 6, 1, 4, 1, 41482, 3, 3];
const SN_PIV: [u64; 9] = [1, 3, 6, 1, 4, 1, 41482, 3, 7];
const POL_PIV: [u64; 9] = [1, 3, 6, 1, 4, 1, 41482, 3, 8];

#[derive(Clone, Default, Debug)]
pub struct FidoX {
    fw: Option<String>,
    aaguid: Option<Vec<u8>>,
    tr: Option<Vec<&'static str>>,
    bad: bool,
}
const TN: [&str; 5] = ["Bluetooth", "BluetoothLE", "USB", "NFC", "USBInternal"];
pub fn fido_exts(r: &mut Rng, d: &Dict) -> (Vec<Vec<u8>>, FidoX) {
    let mut v = vec![];
    let mut x = FidoX::default();
    let crit = |r: &mut Rng| if r.chance(20) { Some(r.chance(50)) } else { None };
    if r.chance(80) {
        let n = if r.chance(85) { 3 } else { r.n(6) };
        let b = if r.chance(70) { r.bytes(n) } else { r.bytes(n).iter().map(|x| x % 12).collect() };
        let mut inner = der(4, &b);
        if r.chance(6) {
            inner = r.blob(d, 6);
            if inner.first() == Some(&4) {
                inner[0] = 2;
            }
            x.bad = true;
        } else if n == 3 {
            x.fw = Some(format!("{}.{}.{}", b[0], b[1], b[2]));
        }
        let c = crit(r);
        v.push(ext(&FW_FIDO, c, &inner));
    }
    if r.chance(80) {
        let n = if r.chance(85) { 16 } else { *r.pick(&[0, 1, 15, 17, 32]) };
        let b = r.bytes(n);
        let mut inner = der(4, &b);
        if r.chance(6) {
            inner = vec![4, 16];
            inner.extend(r.bytes(15));
            x.bad = true;
        } else if n == 16 {
            x.aaguid = Some(b);
        }
        let c = crit(r);
        v.push(ext(&AAGUID, c, &inner));
    }
    if r.chance(80) {
        let n = if r.chance(85) { 1 } else { r.n(4) };
        let b = if r.chance(50) && n == 1 { vec![*r.pick(&[0u8, 8, 0x10, 0x18, 0x20, 0x30, 0x40, 0x80, 0xc0, 0xe0, 0xf8])] } else { r.bytes(n) };
        let unused = if n == 0 { 0 } else { r.n(4) as u8 };
        let mut inner = der(3, &[&[unused][..], &b].concat());
        if r.chance(6) {
            inner[0] = *r.pick(&[4, 2, 0x30]);
            x.bad = true;
        } else {
            let f = b.first().copied().unwrap_or(0);
            x.tr = Some((0..5).filter(|i| f & (0x80 >> i) != 0).map(|i| TN[i]).collect());
        }
        let c = crit(r);
        v.push(ext(&TRANS, c, &inner));
    }
    // unrelated extensions
    if r.chance(40) {
        v.push(ext(&[2, 5, 29, 19], Some(true), &seq(&[])));
    }
    if r.chance(30) {
        let b = r.bytes(3);
        v.push(ext(&[1, 3, 6, 1, 4, 1, 41482, *r.pick(&[2, 12, 14])], None, &der(4, &b)));
    }
    if r.chance(15) {
        // same numbers, one arc more or less
        let b = r.bytes(3);
        v.push(ext(&[1, 3, 6, 1, 4, 1, 41482, 13, 1, 1], None, &der(4, &b)));
    }
    r.shuffle(&mut v);
    (v, x)
}
#[allow(clippy::too_many_arguments)]
fn fido(s: &mut Sess, ad: &[u8], sig: &[u8], ch: &[u8], alg: i32, inter: &[u8], root: Option<(&str, &[u8])>, want: Option<&FidoX>) {
    s.calls += 1;
    let r = call("fido", ad, || verify_auth_data(ad, sig, ch, alg, inter, root.map(|x| x.0)));
    let (xa, xi) = (s.x(ad), s.x(inter));
    let rb = root.map(|x| x.1).unwrap_or(&yu().fido_root);
    let mut f = vec![("ad", xa), ("sig", arr(sig)), ("ch", arr(ch)), ("alg", alg.to_string()), ("inter", xi), ("root", arr(rb)), ("st", r.st())];
    let mut ok = !matches!(r, R::Panic);
    let o = r.ok();
    let tr = |t: &Transport| match t {
        Transport::Bluetooth => "Bluetooth",
        Transport::BluetoothLE => "BluetoothLE",
        Transport::USB => "USB",
        Transport::NFC => "NFC",
        Transport::USBInternal => "USBInternal",
    };
    if let Some(v) = &o {
        let trs: Option<Vec<&str>> = v.transports.as_ref().map(|t| t.iter().map(tr).collect());
        f.push((
            "out",
            format!(
                "{{\"auth\":{},\"fw\":{},\"aaguid\":{},\"tr\":{}}}",
                auth_j(&v.auth_data),
                opt(v.firmware.as_ref().map(|x| arr(x.as_bytes()))),
                opt(v.aaguid.as_ref().map(|x| arr(x))),
                opt(trs.as_ref().map(|t| format!("[{}]", t.iter().map(|x| q(x)).collect::<Vec<_>>().join(","))))
            ),
        ));
        ok = ok
            && match (want, ref_auth(ad)) {
                (Some(w), Some(a)) => same_auth(&a, &v.auth_data) && v.firmware == w.fw && v.aaguid == w.aaguid && trs == w.tr,
                _ => false,
            };
    } else {
        ok = ok && (want.is_none() || ref_auth(ad).is_none());
    }
    s.push("fido", &f);
    s.expect(ok);
}
pub fn sign_der(k: &Signer, msg: &[u8]) -> Vec<u8> {
    match &k.sk {
        Sk::Ec(e) => {
            let rng = SystemRandom::new();
            let (a, n) = if e.curve == "nistp256" { (&rs::ECDSA_P256_SHA256_ASN1_SIGNING, 32) } else { (&rs::ECDSA_P384_SHA384_ASN1_SIGNING, 48) };
            rs::EcdsaKeyPair::from_private_key_and_public_key(a, &pad(&e.d, n), &e.q, &rng).unwrap().sign(&rng, msg).unwrap().as_ref().to_vec()
        }
        _ => k.raw("rsa-sha2-256", msg).sig,
    }
}
fn good_auth(r: &mut Rng, d: &Dict) -> Vec<u8> {
    for _ in 0..20 {
        let a = auth_data(r, d);
        if ref_auth(&a).is_some() && a.len() < 500 {
            return a;
        }
    }
    yu().fido[0].0.clone()
}
pub fn p256_fact(s: &mut Sess, k: &Signer, msg: &[u8], sig: &[u8]) {
    if let Sk::Ec(e) = &k.sk {
        if e.curve == "nistp256" {
            s.fact(&Raw { alg: "p256der", key: vec![e.q.clone()], msg: msg.to_vec(), sig: sig.to_vec() });
        }
    }
}
/// change the signed part or the signature of a certificate, keeping the frame
fn forge(r: &mut Rng, c: &XCert) -> Vec<u8> {
    match r.n(4) {
        0 | 1 => {
            let mut t = c.tbs.clone();
            let i = 4 + r.n(t.len() - 4);
            t[i] ^= 1 << r.n(8);
            if t == c.tbs {
                t[i] ^= 1;
            }
            wrap(&t, &c.alg, &c.sig)
        }
        2 => {
            let mut g = c.sig.clone();
            let i = r.n(g.len());
            g[i] ^= 1 << r.n(8);
            wrap(&c.tbs, &c.alg, &g)
        }
        _ => {
            let mut g = c.sig.clone();
            match r.n(3) {
                0 => g.truncate(r.n(g.len())),
                1 => g.push(r.byte()),
                _ => g = vec![0; g.len()],
            }
            wrap(&c.tbs, &c.alg, &g)
        }
    }
}
pub fn c19(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    if r.chance(4) {
        // genuine Yubico devices and the built-in root
        let y = yu();
        let (ad, sig, ch, inter) = r.pick(&y.fido).clone();
        yubico_fact(&mut s, &inter, &y.fido_root);
        let (spk, x) = yubico_fido(&inter);
        let msg = [ad.clone(), ch.clone()].concat();
        if rs::UnparsedPublicKey::new(&rs::ECDSA_P256_SHA256_ASN1, &spk).verify(&msg, &sig).is_ok() {
            s.fact(&Raw { alg: "p256der", key: vec![spk.clone()], msg, sig: sig.clone() });
        }
        fido(&mut s, &ad, &sig, &ch, -7, &inter, None, Some(&x));
        let p = pem(r, &y.fido_root);
        fido(&mut s, &ad, &sig, &ch, -7, &inter, Some((&p, &y.fido_root)), Some(&x));
        let mut bad = ad.clone();
        let i = r.n(bad.len());
        bad[i] ^= 1 << r.n(8);
        fido(&mut s, &bad, &sig, &ch, -7, &inter, None, None);
        let p = pem(r, &y.piv_root);
        fido(&mut s, &ad, &sig, &ch, -7, &inter, Some((&p, &y.piv_root)), None);
        let t = no_root(r, d, &y.fido_root);
        fido(&mut s, &ad, &sig, &ch, -7, &inter, Some((&t, &[])), None);
        // a root of one's own does not vouch for them
        let k = ca_key(r);
        let c = issue_x(&mut s, r, &k, spki_of(&k).0, &[]);
        let p = pem(r, &c.der);
        fido(&mut s, &ad, &sig, &ch, -7, &inter, Some((&p, &c.der)), None);
        return s;
    }
    let root = ca_key(r);
    let rootc = issue_x(&mut s, r, &root, spki_of(&root).0, &[]);
    let ik = Signer::ec(r, "nistp256");
    let (ex, want) = fido_exts(r, d);
    let inter = issue_x(&mut s, r, &root, spki_of(&ik).0, &ex);
    let ok = !want.bad;
    let ad = good_auth(r, d);
    let ch = match r.n(4) {
        0 => r.blob(d, 100),
        1 => vec![],
        _ => r.bytes(32),
    };
    let msg = [ad.clone(), ch.clone()].concat();
    let sig = sign_der(&ik, &msg);
    p256_fact(&mut s, &ik, &msg, &sig);
    let p = pem(r, &rootc.der);
    let rt = Some((p.as_str(), rootc.der.as_slice()));
    let w = if ok { Some(&want) } else { None };
    if r.chance(80) {
        fido(&mut s, &ad, &sig, &ch, -7, &inter.der, rt, w);
    }
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.n(20) {
            0 => {
                let a = match r.n(4) {
                    0 => r.u64() as i32,
                    1 => d.int(r) as i32,
                    _ => *r.pick(&[-8, 7, 0, -6, -35, -36, -37, -257, -65535, 1, i32::MIN, i32::MAX]),
                };
                fido(&mut s, &ad, &sig, &ch, a, &inter.der, rt, if a == -7 { w } else { None });
            }
            1 => {
                // the root is another
                let o = other(r, &root);
                let oc = issue_x(&mut s, r, &o, spki_of(&o).0, &[]);
                let p = pem(r, &oc.der);
                fido(&mut s, &ad, &sig, &ch, -7, &inter.der, Some((&p, &oc.der)), None);
            }
            2 => fido(&mut s, &ad, &sig, &ch, -7, &inter.der, None, None),
            3 => {
                // the intermediate was issued by someone else (or itself)
                let o = if r.chance(50) { ik.clone() } else { other(r, &root) };
                let ic = issue_x(&mut s, r, &o, spki_of(&ik).0, &ex);
                let same = o.pk == root.pk;
                fido(&mut s, &ad, &sig, &ch, -7, &ic.der, rt, if same { w } else { None });
            }
            4 => {
                let f = forge(r, &inter);
                fido(&mut s, &ad, &sig, &ch, -7, &f, rt, None);
            }
            5 | 6 => {
                let mut x = ad.clone();
                let i = r.n(x.len());
                x[i] ^= 1 << r.n(8);
                fido(&mut s, &x, &sig, &ch, -7, &inter.der, rt, None);
            }
            7 => {
                if !ch.is_empty() {
                    let mut x = ch.clone();
                    let i = r.n(x.len());
                    x[i] ^= 1 << r.n(8);
                    fido(&mut s, &ad, &sig, &x, -7, &inter.der, rt, None);
                } else {
                    fido(&mut s, &ad, &sig, &[0], -7, &inter.der, rt, None);
                }
            }
            8 => {
                // the boundary between the two moves; the signed bytes stay
                let k = r.n(msg.len() + 1);
                fido(&mut s, &msg[..k], &sig, &msg[k..], -7, &inter.der, rt, w);
            }
            9 => {
                // signed something else
                let m = match r.n(6) {
                    0 => ad.clone(),
                    1 => ch.clone(),
                    2 => [ch.clone(), ad.clone()].concat(),
                    3 => [ad.clone(), sha("sha256", &ch)].concat(),
                    4 => sha("sha256", &msg),
                    _ => vec![],
                };
                let g = sign_der(&ik, &m);
                p256_fact(&mut s, &ik, &m, &g);
                fido(&mut s, &ad, &g, &ch, -7, &inter.der, rt, if m == msg { w } else { None });
            }
            10 => {
                // another key signed it
                let o = if r.chance(30) { root.clone() } else { other(r, &ik) };
                let g = sign_der(&o, &msg);
                p256_fact(&mut s, &o, &msg, &g);
                fido(&mut s, &ad, &g, &ch, -7, &inter.der, rt, if o.pk == ik.pk { w } else { None });
            }
            11 => {
                let mut g = sig.clone();
                match r.n(5) {
                    0 => {
                        let i = r.n(g.len());
                        g[i] ^= 1 << r.n(8);
                    }
                    1 => g.truncate(r.n(g.len())),
                    2 => g.push(0),
                    3 => g = vec![],
                    _ => g = ik.raw("", &msg).sig,
                }
                fido(&mut s, &ad, &g, &ch, -7, &inter.der, rt, None);
            }
            12 => {
                // the attested key is of another kind
                let k2 = match r.n(3) {
                    0 => Signer::ec(r, "nistp384"),
                    1 => Signer::rsa(r),
                    _ => Signer::ed(r),
                };
                let ic = issue_x(&mut s, r, &root, spki_of(&k2).0, &ex);
                let g = sign_der(&k2, &msg);
                fido(&mut s, &ad, &g, &ch, -7, &ic.der, rt, None);
            }
            13 => {
                // malformed roots
                let (t, b): (String, Vec<u8>) = (no_root(r, d, &rootc.der), vec![]);
                fido(&mut s, &ad, &sig, &ch, -7, &inter.der, Some((&t, &b)), None);
            }
            14 => {
                // the root attests itself
                if matches!(&root.sk, Sk::Ec(e) if e.curve == "nistp256") {
                    let g = sign_der(&root, &msg);
                    p256_fact(&mut s, &root, &msg, &g);
                    fido(&mut s, &ad, &g, &ch, -7, &rootc.der, rt, Some(&FidoX::default()));
                }
            }
            15 => {
                // a second attestation of the same device; signatures are not interchangeable
                let ad2 = good_auth(r, d);
                let m2 = [ad2.clone(), ch.clone()].concat();
                let g2 = sign_der(&ik, &m2);
                p256_fact(&mut s, &ik, &m2, &g2);
                fido(&mut s, &ad2, &g2, &ch, -7, &inter.der, rt, w);
                fido(&mut s, &ad2, &sig, &ch, -7, &inter.der, rt, if ad2 == ad { w } else { None });
            }
            16 => {
                // another intermediate of the same root
                let k2 = Signer::ec(r, "nistp256");
                let (e2, w2) = fido_exts(r, d);
                let i2 = issue_x(&mut s, r, &root, spki_of(&k2).0, &e2);
                let same = k2.pk == ik.pk && !w2.bad;
                fido(&mut s, &ad, &sig, &ch, -7, &i2.der, rt, if same { Some(&w2) } else { None });
                let g2 = sign_der(&k2, &msg);
                p256_fact(&mut s, &k2, &msg, &g2);
                fido(&mut s, &ad, &g2, &ch, -7, &i2.der, rt, if !w2.bad { Some(&w2) } else { None });
            }
            17 => {
                // signed by the chain, but not authenticator data
                let x = match r.n(3) {
                    0 => r.blob(d, 80),
                    1 => ad[..r.n(ad.len())].to_vec(),
                    _ => {
                        let mut x = ad.clone();
                        x[32] &= !0x40;
                        x
                    }
                };
                let m = [x.clone(), ch.clone()].concat();
                let g = sign_der(&ik, &m);
                p256_fact(&mut s, &ik, &m, &g);
                fido(&mut s, &x, &g, &ch, -7, &inter.der, rt, w);
            }
            18 => {
                let x = r.blob(d, 300);
                fido(&mut s, &ad, &sig, &ch, -7, &x, rt, None);
            }
            _ => {
                let n = r.n(inter.der.len());
                fido(&mut s, &ad, &sig, &ch, -7, &inter.der[..n], rt, None);
            }
        }
    }
    s
}
/// The parts of a genuine certificate this harness needs, found by search
/// (the specification parses it properly).
fn split_cert(b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let l = |o: usize| -> (usize, usize) {
        match b[o + 1] {
            0x81 => (o + 3, b[o + 2] as usize),
            0x82 => (o + 4, (b[o + 2] as usize) << 8 | b[o + 3] as usize),
            n => (o + 2, n as usize),
        }
    };
    let (t, _) = l(0);
    let (c, n) = l(t);
    let tbs = b[t..c + n].to_vec();
    let (ac, an) = l(c + n);
    let (sc, sn) = l(ac + an);
    (tbs, b[sc + 1..sc + sn].to_vec())
}
fn rsa_bits(b: &[u8]) -> Vec<u8> {
    // BIT STRING of a 2048 bit RSAPublicKey
    let p = b.windows(9).position(|w| w == [0x03, 0x82, 0x01, 0x0f, 0x00, 0x30, 0x82, 0x01, 0x0a]).expect("rsa key");
    b[p + 5..p + 5 + 270].to_vec()
}
pub fn yubico_fact(s: &mut Sess, c: &[u8], issuer: &[u8]) -> bool {
    let (tbs, sig) = split_cert(c);
    let bits = rsa_bits(issuer);
    let ok = rs::UnparsedPublicKey::new(&rs::RSA_PKCS1_2048_8192_SHA256, &bits).verify(&tbs, &sig).is_ok();
    if ok {
        s.push("x509", &[("alg", arr(&oid(&[1, 2, 840, 113549, 1, 1, 11])[2..])), ("key", arr(&bits)), ("tbs", arr(&tbs)), ("sig", arr(&sig))]);
    }
    ok
}
fn find(b: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() {
        return None;
    }
    b.windows(n.len()).position(|w| w == n).map(|p| p + n.len())
}
pub fn yubico_fido(inter: &[u8]) -> (Vec<u8>, FidoX) {
    let k = find(inter, &[0x03, 0x42, 0x00]).unwrap();
    let mut x = FidoX::default();
    if let Some(fw) = find(inter, &oid(&FW_FIDO)) {
        x.fw = Some(format!("{}.{}.{}", inter[fw + 4], inter[fw + 5], inter[fw + 6]));
    }
    if let Some(ag) = find(inter, &oid(&AAGUID)) {
        x.aaguid = Some(inter[ag + 4..ag + 20].to_vec());
    }
    if let Some(t) = find(inter, &oid(&TRANS)) {
        let f = inter[t + 5];
        x.tr = Some((0..5).filter(|i| f & (0x80 >> i) != 0).map(|i| TN[i]).collect());
    }
    (inter[k..k + 65].to_vec(), x)
}

// ---------------- PIV ----------------
#[derive(Clone, Debug, Default)]
struct PivX {
    fw: Option<String>,
    sn: Option<u64>,
    pol: Option<(u8, u8)>,
    bad: bool,
}
fn piv_exts(r: &mut Rng, d: &Dict) -> (Vec<Vec<u8>>, PivX) {
    let mut v = vec![];
    let mut x = PivX::default();
    let crit = |r: &mut Rng| if r.chance(20) { Some(r.chance(50)) } else { None };
    if r.chance(95) {
        let n = if r.chance(94) { 3 } else { r.n(6) };
        let b = if r.chance(70) { r.bytes(n) } else { r.bytes(n).iter().map(|x| x % 12).collect() };
        if n == 3 {
            x.fw = Some(format!("{}.{}.{}", b[0], b[1], b[2]));
        }
        let c = crit(r);
        v.push(ext(&FW_PIV, c, &b));
    }
    if r.chance(95) {
        let mut c = r.u64_pool(d) >> 1;
        if r.chance(60) {
            c &= 0xffff_ffff;
        }
        let mut inner = uint(&c.to_be_bytes());
        if r.chance(4) {
            let n = r.range(9, 12);
            let mut b = r.bytes(n);
            b[0] = 1 + (b[0] >> 2);
            inner = uint(&b);
        } else if r.chance(4) {
            inner[0] = *r.pick(&[4, 3, 0x30]);
            x.bad = true;
        } else {
            x.sn = Some(c);
        }
        let c = crit(r);
        v.push(ext(&SN_PIV, c, &inner));
    }
    if r.chance(95) {
        let n = if r.chance(92) { 2 } else { r.n(5) };
        let b = if r.chance(60) { r.bytes(n).iter().map(|x| x % 5).collect() } else { r.bytes(n) };
        if n >= 2 {
            x.pol = Some((b[0], b[1]));
        }
        let c = crit(r);
        v.push(ext(&POL_PIV, c, &b));
    }
    if r.chance(30) {
        let b = r.bytes(3);
        v.push(ext(&[1, 3, 6, 1, 4, 1, 41482, 3, *r.pick(&[9, 10, 4, 1])], None, &b));
    }
    if r.chance(15) {
        let b = r.bytes(3);
        v.push(ext(&[1, 3, 6, 1, 4, 1, 41482, 3, 3, 3], None, &b));
    }
    r.shuffle(&mut v);
    (v, x)
}
fn piv(s: &mut Sess, leaf: &[u8], inter: &[u8], root: Option<(&str, &[u8])>, want: Option<(&PubM, &PivX)>) {
    s.calls += 1;
    let r = call("piv", leaf, || verify_certificate_chain(leaf, inter, root.map(|x| x.0)));
    let (xl, xi) = (s.x(leaf), s.x(inter));
    let rb = root.map(|x| x.1).unwrap_or(&yu().piv_root);
    let mut f = vec![("leaf", xl), ("inter", xi), ("root", arr(rb)), ("st", r.st())];
    let mut ok = !matches!(r, R::Panic);
    let o = r.ok();
    let want = want.filter(|(_, x)| !x.bad && x.fw.is_some() && x.sn.is_some() && x.pol.is_some());
    if let Some(v) = &o {
        f.push((
            "out",
            format!(
                "{{\"key\":{},\"fw\":{},\"sn\":{},\"pin\":{},\"touch\":{}}}",
                pub_j(&v.public_key),
                arr(v.firmware.as_bytes()),
                arr(&v.serial.to_be_bytes()),
                v.pin_policy,
                v.touch_policy
            ),
        ));
        ok = ok
            && match want {
                Some((k, x)) => pub_m(&v.public_key) == *k && Some(&v.firmware) == x.fw.as_ref() && Some(v.serial) == x.sn && Some((v.pin_policy, v.touch_policy)) == x.pol,
                None => false,
            };
    } else {
        ok = ok && want.is_none();
    }
    s.push("piv", &f);
    s.expect(ok);
}
fn leaf_key(r: &mut Rng) -> (Vec<u8>, Option<PubM>) {
    match r.n(10) {
        0 => (spki_of(&Signer::rsa(r)).0, None),
        1 => (spki_of(&Signer::ed(r)).0, None),
        2..=4 => {
            let k = Signer::ec(r, "nistp384");
            (spki_of(&k).0, Some(k.pk))
        }
        _ => {
            let k = Signer::ec(r, "nistp256");
            (spki_of(&k).0, Some(k.pk))
        }
    }
}
pub fn c20(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    if r.chance(4) {
        let y = yu();
        let (leaf, inter) = r.pick(&y.piv).clone();
        yubico_fact(&mut s, &inter, &y.piv_root);
        yubico_fact(&mut s, &leaf, &inter);
        // what the device said
        let k = find(&leaf, &[0x03, 0x42, 0x00]).or_else(|| find(&leaf, &[0x03, 0x62, 0x00]));
        let key = k.map(|k| {
            let n = leaf[k - 2] as usize - 1;
            let c = if n == 65 { "nistp256" } else { "nistp384" };
            PubM { kt: format!("ecdsa-sha2-{c}"), p: vec![c.as_bytes().to_vec(), leaf[k..k + n].to_vec()] }
        });
        let fw = find(&leaf, &oid(&FW_PIV)).unwrap();
        let sn = find(&leaf, &oid(&SN_PIV)).unwrap();
        let po = find(&leaf, &oid(&POL_PIV)).unwrap();
        let x = PivX {
            fw: Some(format!("{}.{}.{}", leaf[fw + 2], leaf[fw + 3], leaf[fw + 4])),
            sn: Some(leaf[sn + 4..sn + 4 + leaf[sn + 3] as usize].iter().fold(0, |a, x| a << 8 | *x as u64)),
            pol: Some((leaf[po + 2], leaf[po + 3])),
            bad: false,
        };
        let w = key.as_ref().map(|k| (k, &x));
        piv(&mut s, &leaf, &inter, None, w);
        let p = pem(r, &y.piv_root);
        piv(&mut s, &leaf, &inter, Some((&p, &y.piv_root)), w);
        let p = pem(r, &y.fido_root);
        piv(&mut s, &leaf, &inter, Some((&p, &y.fido_root)), None);
        let t = no_root(r, d, &y.piv_root);
        piv(&mut s, &leaf, &inter, Some((&t, &[])), None);
        let k = ca_key(r);
        let c = issue_x(&mut s, r, &k, spki_of(&k).0, &[]);
        let p = pem(r, &c.der);
        piv(&mut s, &leaf, &inter, Some((&p, &c.der)), None);
        let mut bad = leaf.clone();
        let (tbs, _) = split_cert(&leaf);
        let i = 8 + r.n(tbs.len() - 8);
        bad[i] ^= 1 << r.n(8);
        piv(&mut s, &bad, &inter, None, None);
        return s;
    }
    let root = ca_key(r);
    let rootc = issue_x(&mut s, r, &root, spki_of(&root).0, &[]);
    let ik = ca_key(r);
    let iex: Vec<Vec<u8>> = if r.chance(30) { piv_exts(r, d).0 } else { vec![] };
    let inter = issue_x(&mut s, r, &root, spki_of(&ik).0, &iex);
    let (lk, key) = leaf_key(r);
    let (ex, x) = piv_exts(r, d);
    let leaf = issue_x(&mut s, r, &ik, lk.clone(), &ex);
    let p = pem(r, &rootc.der);
    let rt = Some((p.as_str(), rootc.der.as_slice()));
    let w = key.as_ref().map(|k| (k, &x));
    if r.chance(80) {
        piv(&mut s, &leaf.der, &inter.der, rt, w);
    }
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.n(16) {
            0 => {
                let o = other(r, &root);
                let oc = issue_x(&mut s, r, &o, spki_of(&o).0, &[]);
                let p = pem(r, &oc.der);
                piv(&mut s, &leaf.der, &inter.der, Some((&p, &oc.der)), None);
            }
            1 => piv(&mut s, &leaf.der, &inter.der, None, None),
            2 => {
                // the intermediate is issued by someone else, or by itself
                let o = if r.chance(50) { ik.clone() } else { other(r, &root) };
                let same = o.pk == root.pk;
                let ic = issue_x(&mut s, r, &o, spki_of(&ik).0, &iex);
                piv(&mut s, &leaf.der, &ic.der, rt, if same { w } else { None });
            }
            3 => {
                // the leaf is issued by someone else
                let o = if r.chance(40) { root.clone() } else { other(r, &ik) };
                let same = o.pk == ik.pk;
                let lc = issue_x(&mut s, r, &o, lk.clone(), &ex);
                piv(&mut s, &lc.der, &inter.der, rt, if same { w } else { None });
            }
            4 | 5 => {
                let f = forge(r, &leaf);
                piv(&mut s, &f, &inter.der, rt, None);
            }
            6 => {
                let f = forge(r, &inter);
                piv(&mut s, &leaf.der, &f, rt, None);
            }
            7 => {
                // swapped, or one certificate in both places
                match r.n(4) {
                    0 => piv(&mut s, &inter.der, &leaf.der, rt, None),
                    1 => {
                        // the leaf as its own issuer
                        if ik.pk == root.pk {
                            continue;
                        }
                        piv(&mut s, &leaf.der, &leaf.der, rt, None)
                    }
                    2 => {
                        // the intermediate as leaf, issued by itself?
                        if ik.pk == root.pk {
                            continue;
                        }
                        piv(&mut s, &inter.der, &inter.der, rt, None)
                    }
                    _ => {
                        // directly below the root: the root is the intermediate
                        let l2 = issue_x(&mut s, r, &root, lk.clone(), &ex);
                        piv(&mut s, &l2.der, &rootc.der, rt, w)
                    }
                }
            }
            8 => {
                // another chain's intermediate with the same root
                let k2 = other(r, &ik);
                let i2 = issue_x(&mut s, r, &root, spki_of(&k2).0, &[]);
                piv(&mut s, &leaf.der, &i2.der, rt, None);
            }
            9 => {
                let (t, b): (String, Vec<u8>) = (no_root(r, d, &rootc.der), vec![]);
                piv(&mut s, &leaf.der, &inter.der, Some((&t, &b)), None);
            }
            10 => {
                let n = r.n(leaf.der.len());
                piv(&mut s, &leaf.der[..n], &inter.der, rt, None);
            }
            11 => {
                let n = r.n(inter.der.len());
                piv(&mut s, &leaf.der, &inter.der[..n], rt, None);
            }
            12 => {
                // leaf with a signature transplanted from another leaf
                let (ex2, _) = piv_exts(r, d);
                let l2 = issue_x(&mut s, r, &ik, lk.clone(), &ex2);
                if l2.tbs != leaf.tbs {
                    let f = wrap(&leaf.tbs, &leaf.alg, &l2.sig);
                    piv(&mut s, &f, &inter.der, rt, None);
                }
            }
            13 => {
                // fresh leaves of the same intermediate
                let (lk2, key2) = leaf_key(r);
                let (ex2, x2) = piv_exts(r, d);
                let l2 = issue_x(&mut s, r, &ik, lk2, &ex2);
                piv(&mut s, &l2.der, &inter.der, rt, key2.as_ref().map(|k| (k, &x2)));
            }
            14 => {
                let b = r.blob(d, 200);
                if r.chance(50) {
                    piv(&mut s, &b, &inter.der, rt, None);
                } else {
                    piv(&mut s, &leaf.der, &b, rt, None);
                }
            }
            _ => {
                let t = [leaf.der.clone(), r.blob(d, 20)].concat();
                piv(&mut s, &t, &inter.der, rt, w);
            }
        }
    }
    s
}

// ---------------- X.509, CSR, DER ----------------
pub fn xkey(s: &mut Sess, op: &'static str, b: &[u8], want: &str, key: Option<&PubM>) {
    s.calls += 1;
    let r = call(op, b, || match op {
        "x_cert" => extract_ssh_pubkey_from_x509_certificate(b),
        "x_csr" => extract_ssh_pubkey_from_x509_csr(b),
        _ => der_encoding_to_ssh_public_key(b),
    });
    let x = s.x(b);
    let mut f = vec![("in", x), ("want", q(want)), ("st", r.st())];
    let mut ok = !matches!(r, R::Panic);
    let o = r.ok();
    if let Some(k) = &o {
        f.push(("out", pub_j(k)));
    }
    s.push(op, &f);
    ok = ok
        && match (want, &o) {
            ("yes", Some(k)) => Some(&pub_m(k)) == key && k.comment.is_none(),
            ("no", None) => true,
            ("any", None) => true,
            // decided by the specification
            ("any", Some(_)) => !s.ev.is_empty() && false,
            _ => false,
        };
    // damaged data that is still accepted always goes to the specification
    if want == "any" && o.is_some() {
        s.ask = s.ask || !plausible(b, o.as_ref().unwrap());
    } else {
        s.expect(ok);
    }
}
/// the point and the curve are literally in the data
fn plausible(b: &[u8], k: &sshcerts::PublicKey) -> bool {
    let m = pub_m(k);
    let o = if m.kt == "ecdsa-sha2-nistp256" { oid(&P256) } else { oid(&P384) };
    // tags, padding counts and the algorithm's name may be damaged (the specification judges those)
    let Some(p) = find(b, &o[2..]) else { return false };
    m.p.len() == 2 && (m.p[1].is_empty() || m.p[1].len() <= b.len() - p && b[p..].windows(m.p[1].len()).any(|w| w == m.p[1].as_slice()))
}
/// an encoded key: its SPKI, what must come out, and whether that is certain
fn any_spki(r: &mut Rng, d: &Dict) -> (Vec<u8>, Option<PubM>, &'static str) {
    let c = *r.pick(&["nistp256", "nistp384"]);
    let o = if c == "nistp256" { oid(&P256) } else { oid(&P384) };
    let mk = |p: &[u8]| Some(PubM { kt: format!("ecdsa-sha2-{c}"), p: vec![c.as_bytes().to_vec(), p.to_vec()] });
    match r.n(16) {
        0 => (spki_of(&Signer::rsa(r)).0, None, "no"),
        1 => (spki_of(&Signer::ed(r)).0, None, "no"),
        2 => {
            // other curves
            let a: Vec<u64> = match r.n(6) {
                0 => vec![1, 3, 132, 0, 35],
                1 => vec![1, 3, 132, 0, 10],
                2 => vec![1, 2, 840, 10045, 3, 1, 1],
                3 => vec![1, 3, 132, 0, 34, 1],
                4 => vec![1, 2, 840, 10045, 3, 1],
                _ => vec![1, 3, 36, 3, 3, 2, 8, 1, 1, 7],
            };
            let p = r.bytes(65);
            (spki(seq(&[oid(&EC), oid(&a)]), &p), None, "no")
        }
        3 => {
            // other algorithms with the curve's parameters
            let a: Vec<u64> = match r.n(6) {
                0 => vec![1, 3, 132, 1, 12],
                1 => RSA.to_vec(),
                2 => vec![1, 2, 840, 10045, 2, 2],
                3 => vec![1, 2, 840, 10040, 4, 1],
                4 => EDOID.to_vec(),
                _ => vec![1, 2, 840, 10045, 2, 1, 1],
            };
            let p = r.bytes(65);
            (spki(seq(&[oid(&a), o]), &p), None, "no")
        }
        4 => {
            // no or odd parameters
            let p = r.bytes(65);
            let alg = match r.n(4) {
                0 => seq(&[oid(&EC)]),
                1 => seq(&[oid(&EC), der(5, &[])]),
                2 => seq(&[oid(&EC), seq(&[o])]),
                _ => seq(&[oid(&EC), der(2, &[1])]),
            };
            (spki(alg, &p), None, "no")
        }
        5 | 6 => {
            // the point is data
            let p = r.blob(d, 140);
            (spki(seq(&[oid(&EC), o]), &p), mk(&p), "yes")
        }
        7 => {
            // compressed
            let mut p = vec![2 + r.n(2) as u8];
            p.extend(r.bytes(32));
            (spki(seq(&[oid(&EC), o]), &p), mk(&p), "yes")
        }
        8 => {
            // point of the other curve
            let k = Signer::ec(r, if c == "nistp256" { "nistp384" } else { "nistp256" });
            let p = k.pk.p[1].clone();
            (spki(seq(&[oid(&EC), o]), &p), mk(&p), "yes")
        }
        _ => {
            let k = Signer::ec(r, c);
            (spki_of(&k).0, Some(k.pk), "yes")
        }
    }
}
fn csr(r: &mut Rng, spki: Vec<u8>) -> Vec<u8> {
    let k = Signer::ec(r, "nistp256");
    let alg = x_alg(r, &k);
    let attrs = if r.chance(30) {
        let e = seq(&[ext(&[2, 5, 29, 19], None, &seq(&[]))]);
        der(0xa0, &seq(&[oid(&[1, 2, 840, 113549, 1, 9, 14]), der(0x31, &e)]))
    } else {
        der(0xa0, &[])
    };
    let info = seq(&[der(2, &[0]), name_der(r), spki, attrs]);
    let sig = sign_der(&k, &info);
    wrap(&info, &alg.id, &sig)
}
pub fn c21(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(1, 3);
    for _ in 0..n {
        let (sp, key, want) = any_spki(r, d);
        let op = *r.pick(&["x_cert", "x_csr", "x_der"]);
        if r.chance(8) {
            // a key with parts too many, too few or out of order
            let c = *r.pick(&["nistp256", "nistp384"]);
            let k = Signer::ec(r, c);
            let o = if k.pk.p[0] == b"nistp256" { oid(&P256) } else { oid(&P384) };
            let bits = der(3, &[vec![0], k.pk.p[1].clone()].concat());
            let extra = match r.n(4) {
                0 => o.clone(),
                1 => der(5, &[]),
                2 => der(2, &[1]),
                _ => oid(&EC),
            };
            let x = match r.n(7) {
                0 => seq(&[seq(&[oid(&EC), o, extra]), bits]),
                1 => seq(&[seq(&[oid(&EC), o]), bits, extra]),
                2 => seq(&[seq(&[oid(&EC), o])]),
                3 => seq(&[bits, seq(&[oid(&EC), o])]),
                4 => seq(&[seq(&[o, oid(&EC)]), bits]),
                5 => seq(&[extra, seq(&[oid(&EC), o]), bits]),
                _ => seq(&[seq(&[oid(&EC), o]), der(4, &k.pk.p[1])]),
            };
            s.x(&x);
            xkey(&mut s, "x_der", &x, "no", None);
        }
        let b = match op {
            "x_cert" => {
                let ca = Signer::ec(r, "nistp256");
                let alg = x_alg(r, &ca);
                let ex = if r.chance(40) { piv_exts(r, d).0 } else { vec![] };
                let tbs = tbs_of(r, &alg, sp.clone(), &ex);
                let sig = if r.chance(50) { sign_der(&ca, &tbs) } else { r.bytes(70) };
                wrap(&tbs, &alg.id, &sig)
            }
            "x_csr" => csr(r, sp.clone()),
            _ => sp.clone(),
        };
        s.x(&b);
        xkey(&mut s, op, &b, want, key.as_ref());
        // the wrong kind of object
        if r.chance(25) {
            let o2 = *r.pick(&["x_cert", "x_csr", "x_der"]);
            if o2 != op {
                xkey(&mut s, o2, &b, "no", None);
            }
        }
        let m = r.range(0, 3);
        for _ in 0..m {
            match r.n(5) {
                0 => {
                    let t = b[..r.n(b.len())].to_vec();
                    xkey(&mut s, op, &t, "no", None);
                }
                1 => {
                    let x = [b.clone(), r.blob(d, 20)].concat();
                    xkey(&mut s, op, &x, if want == "yes" { "any" } else { want }, None);
                }
                2 => {
                    // within the key
                    let p = find(&b, &sp).unwrap_or(sp.len()) - sp.len();
                    let mut x = b.clone();
                    let i = p + r.n(sp.len());
                    x[i] ^= 1 << r.n(8);
                    xkey(&mut s, op, &x, "any", None);
                }
                3 => {
                    let x = damage(r, d, &b);
                    xkey(&mut s, op, &x, "any", None);
                }
                _ => {
                    let mut x = b.clone();
                    let i = r.n(x.len());
                    x[i] ^= 1 << r.n(8);
                    xkey(&mut s, op, &x, "any", None);
                }
            }
        }
    }
    s
}

// ---------------- DER signatures ----------------
fn ref_rs(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>, bool)> {
    if b.len() < 4 || b[0] != 0x30 || b[2] != 2 {
        return None;
    }
    let n = b[3] as usize;
    let r = b.get(4..4 + n)?;
    let t = &b[4 + n..];
    if t.len() < 3 || t[0] != 2 || t[1] as usize != t.len() - 2 {
        return None;
    }
    Some((r.to_vec(), t[2..].to_vec(), b[1] as usize != b.len() - 2 || n == 0))
}
pub fn der_rs(s: &mut Sess, b: &[u8]) {
    s.calls += 2;
    let r = callo("der_rs", b, || {
        let x = asn_der_to_r_s(b).map(|(r, s)| (r.to_vec(), s.to_vec()));
        let y = signature_convert_asn1_ecdsa_to_ssh(b);
        match (x, y) {
            (Some((r, s)), Some(y)) => Some(Some((r, s, y))),
            (None, None) => None,
            _ => Some(None),
        }
    });
    let x = s.x(b);
    let st = r.st();
    let pan = matches!(r, R::Panic);
    match r.ok() {
        Some(None) => {
            // the two disagree about whether it is a signature
            s.push("crash", &[("in", x)]);
            s.expect(false);
        }
        Some(Some((rr, ss, y))) => {
            s.push("der_rs", &[("in", x), ("st", st), ("r", arr(&rr)), ("s", arr(&ss)), ("ssh", arr(&y))]);
            let ok = ref_rs(b).map(|(a, c, _)| a == rr && c == ss && y == W::new().b(&a).b(&c).0).unwrap_or(false);
            s.expect(ok);
        }
        None => {
            s.push("der_rs", &[("in", x), ("st", st)]);
            s.expect(!pan && ref_rs(b).map(|x| x.2).unwrap_or(true));
        }
    }
}
pub fn fmt_sig(s: &mut Sess, k: &sshcerts::PublicKey, b: &[u8]) {
    s.calls += 1;
    let r = callo("fmt_sig", b, || format_signature_for_ssh(k, b));
    let x = s.x(b);
    let mut f = vec![("key", pub_j(k)), ("in", x), ("st", r.st())];
    let pan = matches!(r, R::Panic);
    let o = r.ok();
    if let Some(v) = &o {
        f.push(("out", arr(v)));
    }
    s.push("fmt_sig", &f);
    let m = pub_m(k);
    let rsv = ref_rs(b);
    let want = match fam(&m.kt) {
        "rsa" => Some(W::new().s("rsa-sha2-512").b(b).0),
        "ecdsa" => rsv.as_ref().map(|(a, c, _)| W::new().s(&m.kt).b(&W::new().b(a).b(c).0).0),
        _ => Some(W::new().s(&m.kt).b(b).0),
    };
    let open = fam(&m.kt) == "ecdsa" && rsv.map(|x| x.2).unwrap_or(false);
    s.expect(!pan && (o == want || open && o.is_none()));
}
pub fn c22(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(1, 4);
    for _ in 0..n {
        let b = match r.n(5) {
            0 => {
                let c = *r.pick(&["nistp256", "nistp384"]);
                let k = Signer::ec(r, c);
                let m = r.bytes(20);
                sign_der(&k, &m)
            }
            1 => {
                // lengths at their limits
                let a = r.range(1, 124);
                let c = if r.chance(50) { 123usize.saturating_sub(a).max(1) } else { r.range(1, 60) };
                let (x, y) = (r.bytes(a), r.bytes(c));
                let body = [&[2, a as u8][..], &x, &[2, c as u8], &y].concat();
                if body.len() > 255 {
                    continue;
                }
                [&[0x30, body.len() as u8][..], &body].concat()
            }
            2 => {
                let (x, y) = (r.blob(d, 66), r.blob(d, 66));
                seq(&[uint(&x), uint(&y)])
            }
            3 => {
                let (x, y) = (r.bytes(32), r.bytes(32));
                seq(&[uint(&x), uint(&y)])
            }
            _ => {
                let (x, y) = (r.bytes(48), r.bytes(48));
                seq(&[uint(&x), uint(&y)])
            }
        };
        let m = r.range(1, 5);
        for i in 0..m {
            let mut x = b.clone();
            if i > 0 {
                match r.n(9) {
                    0 => x.truncate(r.n(x.len() + 1)),
                    1 => x.extend(r.blob(d, 5)),
                    2 => {
                        let i = r.n(x.len());
                        x[i] = r.byte();
                    }
                    3 => x[0] = r.byte(),
                    4 => x[1] = r.byte_pool(d),
                    5 => x[2] = r.byte(),
                    6 => x[3] = r.byte_pool(d),
                    7 => {
                        let o = 4 + x[3] as usize;
                        if o + 1 < x.len() {
                            let k = r.n(2);
                            x[o + k] = r.byte_pool(d);
                        }
                    }
                    _ => x = r.blob(d, 80),
                }
            }
            der_rs(&mut s, &x);
            if r.chance(50) {
                let kt = *r.pick(&PLAIN);
                let mut k = pub_of(r, d, kt);
                if r.chance(10) && fam(kt) == "rsa" {
                    k.kt = "rsa-sha2-256".into();
                }
                if let Ok(k) = sshcerts::PublicKey::from_bytes(&k.enc()) {
                    if fam(kt) == "ecdsa" || r.chance(60) {
                        fmt_sig(&mut s, &k, &x);
                    } else {
                        let y = r.blob(d, 300);
                        fmt_sig(&mut s, &k, &y);
                    }
                }
            }
        }
    }
    s
}

/// attestations and X.509 objects as questions, valid and forged
pub fn questions(r: &mut Rng, d: &Dict, q: &mut dyn FnMut(&'static str, &[&[u8]])) {
    let mut s = Sess::new();
    let root = ca_key(r);
    let rootc = issue_x(&mut s, r, &root, spki_of(&root).0, &[]);
    let rp = pem(r, &rootc.der);
    let o = other(r, &root);
    let oc = issue_x(&mut s, r, &o, spki_of(&o).0, &[]);
    let op = pem(r, &oc.der);
    let ik = Signer::ec(r, "nistp256");
    let (fx, _) = fido_exts(r, d);
    let fi = issue_x(&mut s, r, &root, spki_of(&ik).0, &fx);
    let ad = good_auth(r, d);
    let ch = r.bytes(32);
    let sig = sign_der(&ik, &[ad.clone(), ch.clone()].concat());
    let bad = forge(r, &fi);
    let alg = (-7i32).to_be_bytes();
    for (a, g, c, i, p) in [(&ad, &sig, &ch, &fi.der, &rp), (&ad, &sig, &ch, &fi.der, &op), (&ad, &sig, &ad, &fi.der, &rp), (&ad, &sig, &ch, &bad, &rp), (&ad, &ch, &ch, &fi.der, &rp)] {
        q("fido", &[a, g, c, &alg, i, p.as_bytes()]);
    }
    q("fido", &[&ad, &sig, &ch, &alg, &fi.der, b""]);
    q("fido", &[&ad, &sig, &ch, &7i32.to_be_bytes(), &fi.der, rp.as_bytes()]);
    let y = yu();
    let (a, g, c, i) = r.pick(&y.fido).clone();
    q("fido", &[&a, &g, &c, &alg, &i, b""]);
    q("fido", &[&a, &g, &c, &alg, &i, rp.as_bytes()]);
    let (lk, _) = leaf_key(r);
    let pi = issue_x(&mut s, r, &root, spki_of(&ik).0, &[]);
    let (px, _) = piv_exts(r, d);
    let leaf = issue_x(&mut s, r, &ik, lk.clone(), &px);
    let bl = forge(r, &leaf);
    q("piv", &[&leaf.der, &pi.der, rp.as_bytes()]);
    q("piv", &[&leaf.der, &pi.der, op.as_bytes()]);
    q("piv", &[&leaf.der, &pi.der, b""]);
    q("piv", &[&bl, &pi.der, rp.as_bytes()]);
    q("piv", &[&leaf.der, &fi.der, rp.as_bytes()]);
    let (l, i) = r.pick(&y.piv).clone();
    q("piv", &[&l, &i, b""]);
    q("piv", &[&l, &i, rp.as_bytes()]);
    q("x_cert", &[&leaf.der]);
    q("x_cert", &[&bl]);
    q("x_der", &[&lk]);
    q("x_csr", &[&csr(r, lk.clone())]);
    q("der_rs", &[&sig]);
}

/// a chain as described by MC_Chain
pub fn chain(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::scen::{bytes, int, st, texts, utf};
    let mut s = Sess::new();
    let q = &v["q"];
    let piv_chain = st(&v["what"]) == "piv";
    let get = |f: &str| st(&q[f]).to_string();
    let root = ca_key(r);
    let other_root = other(r, &root);
    let inter = if piv_chain { ca_key(r) } else { Signer::ec(r, "nistp256") };
    let leaf = match get("lkind").as_str() {
        "p384" => Signer::ec(r, "nistp384"),
        "rsa" => Signer::rsa(r),
        "ed" => Signer::ed(r),
        _ => Signer::ec(r, "nistp256"),
    };
    let x = Signer::ec(r, "nistp256");
    // the few keys the harness has may coincide by chance
    let all = [&root, &other_root, &inter, &leaf, &x];
    for (i, a) in all.iter().enumerate() {
        if all[i + 1..].iter().any(|b| b.pk == a.pk) {
            return Sess::new();
        }
    }
    let who = |w: &str, own: &str| match if w == "own" { own } else { w } {
        "R" => root.clone(),
        "S" => other_root.clone(),
        "I" => inter.clone(),
        "L" => leaf.clone(),
        _ => x.clone(),
    };
    let exts: Vec<Vec<u8>> = v["exts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let mut p = vec![der(6, &bytes(&e["oid"]))];
            match st(&e["crit"]) {
                "yes" => p.push(der(1, &[255])),
                "no" => p.push(der(1, &[0])),
                _ => {}
            }
            p.push(der(4, &bytes(&e["v"])));
            seq(&p)
        })
        .collect();
    let make = |s: &mut Sess, r: &mut Rng, of: &Signer, by: &Signer, exts: &[Vec<u8>], alter: &str| -> Vec<u8> {
        let c = issue_x(s, r, by, spki_of(of).0, exts);
        match alter {
            "content" => {
                let bits = spki_of(of).1;
                let at = find(&c.tbs, &bits).unwrap();
                let mut t = c.tbs.clone();
                t[at - 1 - r.n(8)] ^= 1 << r.n(8);
                wrap(&t, &c.alg, &c.sig)
            }
            "sig" => {
                let mut g = c.sig.clone();
                let n = g.len();
                g[n - 1 - r.n(8)] ^= 1 << r.n(8);
                wrap(&c.tbs, &c.alg, &g)
            }
            "no sig" => wrap(&c.tbs, &c.alg, &[]),
            "long sig" => wrap(&c.tbs, &c.alg, &[&c.sig[..], &[0]].concat()),
            "alg" => {
                let a = loop {
                    let a: Vec<u64> = match r.n(5) {
                        0 => vec![1, 2, 840, 10045, 4, 3, 2],
                        1 => vec![1, 2, 840, 10045, 4, 3, 3],
                        2 => vec![1, 2, 840, 113549, 1, 1, 11],
                        3 => vec![1, 2, 840, 113549, 1, 1, 13],
                        _ => EDOID.to_vec(),
                    };
                    if !c.alg.ends_with(&oid(&a)) && find(&c.alg, &oid(&a)).is_none() {
                        break a;
                    }
                };
                wrap(&c.tbs, &seq(&[oid(&a)]), &c.sig)
            }
            _ => c.der,
        }
    };
    let rw = get("root");
    let rk = who(&rw, "R");
    let rc = make(&mut s, r, &rk, &rk, &[], "own");
    let text = pem(r, &rc);
    let broken = no_root(r, d, &rc);
    let rt: Option<(&str, &[u8])> = match rw.as_str() {
        "yubico" => None,
        "none" => Some(("", &[])),
        "broken" => Some((&broken, &[])),
        _ => Some((&text, &rc)),
    };
    let ic = make(&mut s, r, &inter, &who(&get("iby"), "R"), if piv_chain { &[] } else { &exts }, &get("ialter"));
    let out = v["out"].as_array().unwrap().first();
    if piv_chain {
        let lc = make(&mut s, r, &leaf, &who(&get("lby"), "I"), &exts, &get("lalter"));
        let (l, i) = match get("swap").as_str() {
            "own" => (&lc, &ic),
            "leaf" => (&ic, &ic),
            _ => (&ic, &lc),
        };
        let w = out.map(|o| {
            let sn = u64::from_be_bytes(bytes(&o["sn"]).try_into().unwrap());
            PivX { fw: Some(utf(&o["fw"])), sn: Some(sn), pol: Some((int(&o["pin"]) as u8, int(&o["touch"]) as u8)), bad: false }
        });
        piv(&mut s, l, i, rt, w.as_ref().map(|w| (&leaf.pk, w)));
    } else {
        let msg = bytes(&v["msg"]);
        let by = who(&get("sby"), "I");
        let mut g = sign_der(&by, &msg);
        p256_fact(&mut s, &by, &msg, &g);
        let n = g.len();
        match get("salter").as_str() {
            "sig" => g[n - 1 - r.n(8)] ^= 1 << r.n(8),
            "empty" => g.clear(),
            "long" => g.push(0),
            "cut" => g.truncate(n - 1),
            _ => {}
        }
        let w = out.map(|o| FidoX {
            fw: texts(&o["fw"]).pop(),
            aaguid: o["aaguid"].as_array().unwrap().first().map(bytes),
            tr: o["tr"].as_array().unwrap().first().map(|t| TN.into_iter().filter(|n| t.as_array().unwrap().iter().any(|x| st(x) == *n)).collect()),
            bad: false,
        });
        fido(&mut s, &bytes(&v["shown"]), &g, &bytes(&v["ch"]), int(&v["alg"]) as i32, &ic, rt, w.as_ref());
    }
    s
}
