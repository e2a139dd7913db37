//! Key material, signing oracles and the model of public keys.
use crate::rng::Rng;
use crate::wire::*;
use num_bigint::BigUint;
use ring::{digest, rand::SystemRandom, signature as rs};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PubM {
    pub kt: String,
    pub p: Vec<Vec<u8>>,
}
pub const PLAIN: [&str; 7] = [
    "ssh-rsa",
    "ecdsa-sha2-nistp256",
    "ecdsa-sha2-nistp384",
    "ecdsa-sha2-nistp521",
    "ssh-ed25519",
    "sk-ssh-ed25519@openssh.com",
    "sk-ecdsa-sha2-nistp256@openssh.com",
];
pub const ALL_TYPES: [&str; 16] = [
    "ssh-rsa",
    "rsa-sha2-256",
    "rsa-sha2-512",
    "ssh-rsa-cert-v01@openssh.com",
    "ecdsa-sha2-nistp256",
    "ecdsa-sha2-nistp384",
    "ecdsa-sha2-nistp521",
    "ecdsa-sha2-nistp256-cert-v01@openssh.com",
    "ecdsa-sha2-nistp384-cert-v01@openssh.com",
    "ecdsa-sha2-nistp521-cert-v01@openssh.com",
    "ssh-ed25519",
    "ssh-ed25519-cert-v01@openssh.com",
    "sk-ssh-ed25519@openssh.com",
    "sk-ssh-ed25519-cert-v01@openssh.com",
    "sk-ecdsa-sha2-nistp256@openssh.com",
    "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
];
pub fn cert_name(plain: &str) -> String {
    match plain {
        "sk-ssh-ed25519@openssh.com" => "sk-ssh-ed25519-cert-v01@openssh.com".into(),
        "sk-ecdsa-sha2-nistp256@openssh.com" => "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com".into(),
        x => format!("{x}-cert-v01@openssh.com"),
    }
}
pub fn fam(kt: &str) -> &'static str {
    if kt.contains("rsa") {
        "rsa"
    } else if kt.contains("ecdsa") {
        "ecdsa"
    } else {
        "ed"
    }
}
pub fn is_sk(kt: &str) -> bool {
    kt.starts_with("sk-")
}
impl PubM {
    pub fn data(&self) -> Vec<u8> {
        if fam(&self.kt) == "rsa" {
            W::new().mp(&self.p[0]).mp(&self.p[1]).0
        } else {
            self.p.iter().fold(W::new(), |w, x| w.b(x)).0
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        W::new().s(&self.kt).raw(&self.data()).0
    }
    pub fn line(&self) -> String {
        format!("{} {}", self.kt, b64(&self.enc()))
    }
    pub fn ssh(&self) -> sshcerts::PublicKey {
        sshcerts::PublicKey::from_bytes(&self.enc()).expect("model key must parse")
    }
}

#[derive(Clone, Debug)]
pub struct EcKey {
    pub curve: &'static str,
    pub d: Vec<u8>,
    pub q: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct RsaKey {
    pub bits: usize,
    pub n: Vec<u8>,
    pub e: Vec<u8>,
    pub d: Vec<u8>,
    pub p: Vec<u8>,
    pub q: Vec<u8>,
    pub i: Vec<u8>,
}
pub struct Fixtures {
    pub ec: Vec<EcKey>,
    pub rsa: Vec<RsaKey>,
}
static FX: OnceLock<Fixtures> = OnceLock::new();
pub fn load(path: &str) {
    let t = std::fs::read_to_string(path).expect("fixtures");
    let v: serde_json::Value = serde_json::from_str(&t).expect("fixtures json");
    let h = |x: &serde_json::Value, k: &str| hex(x[k].as_str().unwrap());
    let ec = v["ec"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| EcKey {
            curve: match x["curve"].as_str().unwrap() {
                "p256" => "nistp256",
                "p384" => "nistp384",
                _ => "nistp521",
            },
            d: h(x, "d"),
            q: h(x, "q"),
        })
        .collect();
    let rsa = v["rsa"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| RsaKey { bits: x["bits"].as_u64().unwrap() as usize, n: h(x, "n"), e: h(x, "e"), d: h(x, "d"), p: h(x, "p"), q: h(x, "q"), i: h(x, "i") })
        .collect();
    let _ = FX.set(Fixtures { ec, rsa });
}
pub fn fx() -> &'static Fixtures {
    FX.get().expect("fixtures loaded")
}

pub fn sha(a: &str, b: &[u8]) -> Vec<u8> {
    let alg = match a {
        "sha1" => &digest::SHA1_FOR_LEGACY_USE_ONLY,
        "sha256" => &digest::SHA256,
        "sha384" => &digest::SHA384,
        _ => &digest::SHA512,
    };
    digest::digest(alg, b).as_ref().to_vec()
}

/// A software signing key
#[derive(Clone)]
pub enum Sk {
    Ed([u8; 32]),
    Ec(EcKey),
    Rsa(RsaKey),
}
#[derive(Clone)]
pub struct Signer {
    pub sk: Sk,
    pub pk: PubM,
}
/// one low-level signature
pub struct Raw {
    pub alg: &'static str,
    pub key: Vec<Vec<u8>>,
    pub msg: Vec<u8>,
    pub sig: Vec<u8>,
}

pub fn ed_pub(seed: &[u8; 32]) -> Vec<u8> {
    use rs::KeyPair;
    rs::Ed25519KeyPair::from_seed_unchecked(seed).unwrap().public_key().as_ref().to_vec()
}
fn strip0(b: &[u8]) -> &[u8] {
    let k = b.iter().take_while(|x| **x == 0).count();
    &b[k..]
}
pub fn order(curve: &str) -> BigUint {
    let h: &[u8] = if curve == "nistp256" {
        b"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
    } else {
        b"ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"
    };
    BigUint::parse_bytes(h, 16).unwrap()
}
pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let b = strip0(b);
    let mut v = vec![0; n.saturating_sub(b.len())];
    v.extend_from_slice(b);
    v
}
impl Signer {
    pub fn ed(r: &mut Rng) -> Signer {
        let mut s = [0u8; 32];
        for x in s.iter_mut() {
            *x = r.byte();
        }
        Signer { pk: PubM { kt: "ssh-ed25519".into(), p: vec![ed_pub(&s)] }, sk: Sk::Ed(s) }
    }
    pub fn ed_sk(r: &mut Rng, app: &str) -> Signer {
        let mut x = Signer::ed(r);
        x.pk = PubM { kt: "sk-ssh-ed25519@openssh.com".into(), p: vec![x.pk.p[0].clone(), app.as_bytes().to_vec()] };
        x
    }
    pub fn ec_of(k: &EcKey) -> Signer {
        Signer { sk: Sk::Ec(k.clone()), pk: PubM { kt: format!("ecdsa-sha2-{}", k.curve), p: vec![k.curve.as_bytes().to_vec(), k.q.clone()] } }
    }
    pub fn ec(r: &mut Rng, curve: &str) -> Signer {
        let v: Vec<&EcKey> = fx().ec.iter().filter(|k| k.curve == curve).collect();
        let k: &EcKey = v[r.n(v.len())];
        Signer::ec_of(k)
    }
    pub fn ec_sk(r: &mut Rng, app: &str) -> Signer {
        let mut x = Signer::ec(r, "nistp256");
        x.pk.kt = "sk-ecdsa-sha2-nistp256@openssh.com".into();
        x.pk.p.push(app.as_bytes().to_vec());
        x
    }
    pub fn rsa_of(k: &RsaKey) -> Signer {
        Signer { sk: Sk::Rsa(k.clone()), pk: PubM { kt: "ssh-rsa".into(), p: vec![strip0(&k.e).to_vec(), strip0(&k.n).to_vec()] } }
    }
    pub fn rsa(r: &mut Rng) -> Signer {
        let v: Vec<&RsaKey> = fx().rsa.iter().filter(|k| k.bits >= 2048).collect();
        // the larger keys are slow, use them less
        let small: Vec<&RsaKey> = v.iter().copied().filter(|k| k.bits == 2048).collect();
        if r.chance(85) {
            Signer::rsa_of(small[r.n(small.len())])
        } else {
            Signer::rsa_of(v[r.n(v.len())])
        }
    }
    /// a key that can both sign and be verified by the library
    pub fn any(r: &mut Rng, app: &str) -> Signer {
        match r.n(12) {
            0..=3 => Signer::ed(r),
            4 => Signer::ed_sk(r, app),
            5 | 6 => Signer::ec(r, "nistp256"),
            7 => Signer::ec(r, "nistp384"),
            8 | 9 => Signer::ec_sk(r, app),
            _ => Signer::rsa(r),
        }
    }
    /// the scheme names the key may sign with
    pub fn schemes(&self) -> Vec<&'static str> {
        match (&self.sk, self.pk.kt.as_str()) {
            (Sk::Ed(_), "ssh-ed25519") => vec!["ssh-ed25519"],
            (Sk::Ed(_), _) => vec!["sk-ssh-ed25519@openssh.com"],
            (Sk::Ec(_), "ecdsa-sha2-nistp256") => vec!["ecdsa-sha2-nistp256"],
            (Sk::Ec(_), "ecdsa-sha2-nistp384") => vec!["ecdsa-sha2-nistp384"],
            (Sk::Ec(_), _) => vec!["sk-ecdsa-sha2-nistp256@openssh.com"],
            (Sk::Rsa(_), _) => vec!["rsa-sha2-512", "rsa-sha2-256", "ssh-rsa"],
        }
    }
    /// low-level signature of exactly these bytes
    pub fn raw(&self, scheme: &str, msg: &[u8]) -> Raw {
        match &self.sk {
            Sk::Ed(s) => {
                let k = rs::Ed25519KeyPair::from_seed_unchecked(s).unwrap();
                Raw { alg: "ed25519", key: vec![self.pk.p[0].clone()], msg: msg.to_vec(), sig: k.sign(msg).as_ref().to_vec() }
            }
            Sk::Ec(k) => {
                let (alg, a, n) = if k.curve == "nistp256" { (&rs::ECDSA_P256_SHA256_FIXED_SIGNING, "p256", 32) } else { (&rs::ECDSA_P384_SHA384_FIXED_SIGNING, "p384", 48) };
                let rng = SystemRandom::new();
                let kp = rs::EcdsaKeyPair::from_private_key_and_public_key(alg, &pad(&k.d, n), &k.q, &rng).unwrap();
                Raw { alg: a, key: vec![k.q.clone()], msg: msg.to_vec(), sig: kp.sign(&rng, msg).unwrap().as_ref().to_vec() }
            }
            Sk::Rsa(k) => {
                let (h, a): (&str, &'static str) = match scheme {
                    "ssh-rsa" => ("sha1", "rsa1"),
                    "rsa-sha2-256" => ("sha256", "rsa256"),
                    _ => ("sha512", "rsa512"),
                };
                Raw { alg: a, key: vec![self.pk.p[0].clone(), self.pk.p[1].clone()], msg: msg.to_vec(), sig: rsa_sign(k, h, msg) }
            }
        }
    }
    /// is this key one the library refuses regardless (1024 bit RSA, P-521)?
    pub fn usable(&self) -> bool {
        match &self.sk {
            Sk::Rsa(k) => k.bits >= 2048,
            Sk::Ec(k) => k.curve != "nistp521",
            _ => true,
        }
    }
}
fn ring_pair(k: &RsaKey) -> Option<&'static rs::RsaKeyPair> {
    type Pairs = std::collections::HashMap<Vec<u8>, rs::RsaKeyPair>;
    static P: OnceLock<Pairs> = OnceLock::new();
    P.get_or_init(|| {
        let one = BigUint::from(1u8);
        let mut m = Pairs::new();
        for k in fx().rsa.iter().filter(|k| k.bits >= 2048) {
            let (p, q, d) = (BigUint::from_bytes_be(&k.p), BigUint::from_bytes_be(&k.q), BigUint::from_bytes_be(&k.d));
            let (dp, dq) = ((&d % (&p - &one)).to_bytes_be(), (&d % (&q - &one)).to_bytes_be());
            let c = rs::RsaKeyPair::from_components(&ring::rsa::KeyPairComponents {
                public_key: ring::rsa::PublicKeyComponents { n: strip0(&k.n), e: strip0(&k.e) },
                d: strip0(&k.d),
                p: strip0(&k.p),
                q: strip0(&k.q),
                dP: &dp[..],
                dQ: &dq[..],
                qInv: strip0(&k.i),
            });
            if let Ok(c) = c {
                m.insert(k.n.clone(), c);
            }
        }
        m
    })
    .get(&k.n)
}
pub fn rsa_sign(k: &RsaKey, h: &str, msg: &[u8]) -> Vec<u8> {
    // ring is quicker where it applies
    let enc: Option<&dyn rs::RsaEncoding> = match h {
        "sha256" => Some(&rs::RSA_PKCS1_SHA256),
        "sha512" => Some(&rs::RSA_PKCS1_SHA512),
        _ => None,
    };
    if let (Some(e), Some(kp)) = (enc, ring_pair(k)) {
        let mut o = vec![0; kp.public().modulus_len()];
        if kp.sign(e, &SystemRandom::new(), msg, &mut o).is_ok() {
            return o;
        }
    }
    let prefix: &[u8] = match h {
        "sha1" => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
        "sha256" => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
        "sha384" => &[0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30],
        _ => &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
    };
    let d = sha(h, msg);
    let len = strip0(&k.n).len();
    let mut em = vec![0, 1];
    em.extend(vec![255u8; len - 3 - prefix.len() - d.len()]);
    em.push(0);
    em.extend_from_slice(prefix);
    em.extend_from_slice(&d);
    let m = BigUint::from_bytes_be(&em);
    let (p, q) = (BigUint::from_bytes_be(&k.p), BigUint::from_bytes_be(&k.q));
    let dd = BigUint::from_bytes_be(&k.d);
    let one = BigUint::from(1u8);
    let qi = BigUint::from_bytes_be(&k.i);
    let m1 = (&m % &p).modpow(&(&dd % (&p - &one)), &p);
    let m2 = (&m % &q).modpow(&(&dd % (&q - &one)), &q);
    let h = (qi * ((&m1 + &p) - (&m2 % &p))) % &p;
    let s = m2 + h * q;
    pad(&s.to_bytes_be(), len)
}

/// mpint-pair body of an ECDSA signature
pub fn ecdsa_body(raw: &[u8]) -> Vec<u8> {
    let n = raw.len() / 2;
    W::new().mp(&raw[..n]).mp(&raw[n..]).0
}
/// the bytes a security key signs
pub fn sk_msg(app: &[u8], flags: u8, ctr: u32, msg: &[u8]) -> Vec<u8> {
    let mut v = sha("sha256", app);
    v.push(flags);
    v.extend_from_slice(&ctr.to_be_bytes());
    v.extend(sha("sha256", msg));
    v
}
