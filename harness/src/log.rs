//! Sessions: what is recorded of a run against the real library, in the
//! format spec/Trace.tla reads.
use crate::keys::*;
use crate::rng::Rng;
use crate::wire::*;
use std::fmt::Write as _;

pub fn arr(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if *x >= 100 {
            s.push((b'0' + x / 100) as char);
        }
        if *x >= 10 {
            s.push((b'0' + x / 10 % 10) as char);
        }
        s.push((b'0' + x % 10) as char);
    }
    s.push(']');
    s
}
pub fn arr32(b: &[u32]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}
pub fn arrs<T: AsRef<[u8]>>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| arr(x.as_ref())).collect::<Vec<_>>().join(","))
}
pub fn opt(x: Option<String>) -> String {
    match x {
        Some(v) => format!("[{v}]"),
        None => "[]".into(),
    }
}
pub fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

const WHY_OPS: [&str; 17] = [
    "cert_bytes", "cert_text", "pub_line", "pub_blob", "sig_parse", "sig_verify", "sig_new", "priv_parse", "priv_bytes", "kt", "curve", "as_line", "as_file", "b_addsig",
    "b_sign", "missing", "gen",
];
#[derive(Default, Clone)]
pub struct Sess {
    pub ev: Vec<String>,
    bases: Vec<(usize, Vec<u32>)>,
    /// something differed from what the generator expects by construction
    pub sus: bool,
    /// the generator has no opinion: left to the specification
    pub ask: bool,
    pub zone: Option<String>,
    pub handles: usize,
    pub calls: usize,
    known_facts: std::collections::HashSet<(String, Vec<u8>, u64)>,
    pub why: Vec<String>,
    pub streams: crate::refs::Streams,
    /// the cause named by the last refusal
    pub told: Option<crate::why::Cause>,
}
fn h64(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
impl Sess {
    pub fn new() -> Sess {
        Sess::default()
    }
    pub fn line(&self) -> String {
        let z = self.zone.as_ref().map(|z| format!(",\"zone\":{z}")).unwrap_or_default();
        format!("{{\"ev\":[{}]{z}}}", self.ev.join(","))
    }
    /// append an event; returns its 1-based position
    pub fn push(&mut self, op: &str, fields: &[(&str, String)]) -> usize {
        let mut s = format!("{{\"op\":\"{op}\"");
        for (k, v) in fields {
            let _ = write!(s, ",\"{k}\":{v}");
        }
        if WHY_OPS.contains(&op) && fields.iter().any(|f| f.0 == "st" && ["\"err\"", "\"enc\"", "\"unsup\""].contains(&f.1.as_str())) {
            // what the refusal was put down to
            if let Some(t) = crate::why::LAST.with(|l| l.borrow_mut().take()) {
                let _ = write!(s, ",\"why\":{{\"k\":{},\"a\":{},\"m\":{}}}", q(&t.k), arr(&t.a), arr(t.m.as_bytes()));
                self.told = Some((t.k.clone(), t.a.clone()));
                if t.odd {
                    self.sus = true;
                    self.why.push(format!("{} {}", op, t.k));
                }
            }
        }
        s.push('}');
        self.ev.push(s);
        self.ev.len()
    }
    pub fn size(&self) -> usize {
        self.ev.iter().map(|e| e.len()).sum()
    }
    pub fn expect(&mut self, ok: bool) {
        if !ok {
            self.sus = true;
            self.why.push(format!("event {}", self.ev.len()));
        }
    }
    pub fn h(&mut self) -> usize {
        self.handles += 1;
        self.handles
    }
    pub fn x32(&mut self, d: &[u32]) -> String {
        if d.len() <= 40 {
            return format!("{{\"d\":{}}}", arr32(d));
        }
        let mut best: Option<(usize, usize, usize, usize)> = None; // cost, base, pre, suf
        for (i, (_, b)) in self.bases.iter().enumerate() {
            let m = b.len().min(d.len());
            let pre = b.iter().zip(d).take_while(|(x, y)| x == y).count();
            let suf = b.iter().rev().zip(d.iter().rev()).take_while(|(x, y)| x == y).count().min(m - pre);
            let cost = d.len() - pre - suf;
            if best.map(|x| cost < x.0).unwrap_or(true) {
                best = Some((cost, i, pre, suf));
            }
        }
        if let Some((cost, i, pre, suf)) = best {
            if cost * 2 < d.len() {
                let (idx, b) = &self.bases[i];
                let del = b.len() - pre - suf;
                if del == 0 && cost == 0 {
                    return format!("{{\"b\":{idx},\"e\":[]}}");
                }
                return format!("{{\"b\":{idx},\"e\":[[{pre},{del},{}]]}}", arr32(&d[pre..d.len() - suf]));
            }
        }
        let idx = self.push("note", &[("in", format!("{{\"d\":{}}}", arr32(d)))]);
        self.bases.push((idx, d.to_vec()));
        format!("{{\"b\":{idx},\"e\":[]}}")
    }
    pub fn x(&mut self, d: &[u8]) -> String {
        let v: Vec<u32> = d.iter().map(|x| *x as u32).collect();
        self.x32(&v)
    }
    pub fn xt(&mut self, t: &str) -> String {
        let v: Vec<u32> = t.chars().map(|x| x as u32).collect();
        self.x32(&v)
    }

    // ---- oracles ----
    pub fn fact(&mut self, f: &Raw) {
        let id = (f.alg.to_string(), f.sig.clone(), h64(&f.msg) ^ h64(&f.key.concat()).rotate_left(1));
        if !self.known_facts.insert(id) {
            return;
        }
        let m = self.x(&f.msg);
        self.push("fact", &[("alg", q(f.alg)), ("key", arrs(&f.key)), ("msg", m), ("sig", arr(&f.sig))]);
    }
    pub fn hash(&mut self, a: &str, i: &[u8]) -> Vec<u8> {
        let o = sha(a, i);
        if self.known_facts.insert((a.to_string(), o.clone(), 0)) {
            let x = self.x(i);
            self.push("hash", &[("a", q(a)), ("i", x), ("o", arr(&o))]);
        }
        o
    }
    /// sign msg as the holder of the key: complete SSH signature blob, facts recorded
    pub fn sign(&mut self, r: &mut Rng, k: &Signer, msg: &[u8]) -> Vec<u8> {
        let scheme = *r.pick(&k.schemes());
        self.sign_with(r, k, scheme, msg)
    }
    pub fn sign_with(&mut self, r: &mut Rng, k: &Signer, scheme: &str, msg: &[u8]) -> Vec<u8> {
        let fl = if r.chance(70) { 1 } else { r.byte() };
        let ctr = match r.n(4) {
            0 => *r.pick(&[0, 1, 255, 256, u32::MAX, 0x8000_0000]),
            _ => r.u64() as u32,
        };
        self.sign_full(r, k, scheme, msg, fl, ctr)
    }
    pub fn sign_full(&mut self, r: &mut Rng, k: &Signer, scheme: &str, msg: &[u8], flags: u8, ctr: u32) -> Vec<u8> {
        let sk = is_sk(&k.pk.kt);
        let m = if sk {
            let app = k.pk.p.last().unwrap().clone();
            self.hash("sha256", &app);
            self.hash("sha256", msg);
            sk_msg(&app, flags, ctr, msg)
        } else {
            msg.to_vec()
        };
        let mut raw = k.raw(scheme, &m);
        if let Sk::Ec(ec) = &k.sk {
            // sometimes look for short or high-bit r and s
            if r.chance(2) {
                let n = raw.sig.len() / 2;
                let want = r.n(4);
                for _ in 0..700 {
                    let (a, b) = (raw.sig[0], raw.sig[n]);
                    let ok = match want {
                        0 => a == 0,
                        1 => b == 0,
                        2 => a >= 128 && b < 128,
                        _ => a < 128 && b >= 128,
                    };
                    if ok {
                        break;
                    }
                    raw = k.raw(scheme, &m);
                }
            }
            if r.chance(10) {
                // the other valid s
                let n = raw.sig.len() / 2;
                let o = order(ec.curve);
                let s2 = o - num_bigint::BigUint::from_bytes_be(&raw.sig[n..]);
                let mut v = raw.sig[..n].to_vec();
                v.extend(pad(&s2.to_bytes_be(), n));
                raw.sig = v;
            }
        }
        let body = if matches!(k.sk, Sk::Ec(_)) { ecdsa_body(&raw.sig) } else { raw.sig.clone() };
        if k.usable() {
            self.fact(&raw);
        }
        let mut w = W::new().s(scheme).b(&body);
        if sk {
            w = w.raw(&[flags]).u32(ctr);
        }
        w.0
    }
    /// A signature made by the code under test: decide by ring, independently
    /// of the library, whether it is valid, and record that as a fact.
    pub fn witness(&mut self, pk: &PubM, sig: &[u8], msg: &[u8]) -> bool {
        use ring::signature as rs;
        let f = fam(&pk.kt);
        let rd = |o: usize| -> Option<(Vec<u8>, usize)> {
            let n = u32::from_be_bytes(sig.get(o..o + 4)?.try_into().ok()?) as usize;
            Some((sig.get(o + 4..o + 4 + n)?.to_vec(), o + 4 + n))
        };
        let Some((name, o)) = rd(0) else { return false };
        let Some((body, o)) = rd(o) else { return false };
        let long;
        let msg = if is_sk(&pk.kt) {
            let app = pk.p.last().unwrap().clone();
            let (Some(fl), Some(c)) = (sig.get(o), sig.get(o + 1..o + 5)) else { return false };
            self.hash("sha256", &app);
            self.hash("sha256", msg);
            long = sk_msg(&app, *fl, u32::from_be_bytes(c.try_into().unwrap()), msg);
            &long[..]
        } else {
            msg
        };
        let (alg, key, raw, ok): (&'static str, Vec<Vec<u8>>, Vec<u8>, bool) = match f {
            "ed" => {
                let ok = rs::UnparsedPublicKey::new(&rs::ED25519, &pk.p[0]).verify(msg, &body).is_ok();
                ("ed25519", vec![pk.p[0].clone()], body, ok)
            }
            "rsa" => {
                let (a, v): (&'static str, &rs::RsaParameters) = match name.as_slice() {
                    b"rsa-sha2-512" => ("rsa512", &rs::RSA_PKCS1_2048_8192_SHA512),
                    b"rsa-sha2-256" => ("rsa256", &rs::RSA_PKCS1_2048_8192_SHA256),
                    b"ssh-rsa" => ("rsa1", &rs::RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY),
                    _ => return false,
                };
                let ok = rs::RsaPublicKeyComponents { n: &pk.p[1], e: &pk.p[0] }.verify(v, msg, &body).is_ok();
                (a, pk.p.clone(), body, ok)
            }
            _ => {
                let (a, n, v): (&'static str, usize, &'static dyn rs::VerificationAlgorithm) = match pk.kt.as_str() {
                    "ecdsa-sha2-nistp256" | "sk-ecdsa-sha2-nistp256@openssh.com" => ("p256", 32, &rs::ECDSA_P256_SHA256_FIXED),
                    "ecdsa-sha2-nistp384" => ("p384", 48, &rs::ECDSA_P384_SHA384_FIXED),
                    _ => return false,
                };
                let rdb = |o: usize| -> Option<(Vec<u8>, usize)> {
                    let n = u32::from_be_bytes(body.get(o..o + 4)?.try_into().ok()?) as usize;
                    Some((body.get(o + 4..o + 4 + n)?.to_vec(), o + 4 + n))
                };
                let Some((rv, o)) = rdb(0) else { return false };
                let Some((sv, _)) = rdb(o) else { return false };
                let (rp, sp) = (pad(&rv, n), pad(&sv, n));
                if rp.len() > n || sp.len() > n {
                    return false;
                }
                let raw = [rp, sp].concat();
                let ok = rs::UnparsedPublicKey::new(v, &pk.p[1]).verify(msg, &raw).is_ok();
                (a, vec![pk.p[1].clone()], raw, ok)
            }
        };
        if ok {
            self.fact(&Raw { alg, key, msg: msg.to_vec(), sig: raw });
        }
        ok
    }
}
