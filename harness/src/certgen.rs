//! Model certificates, their encoding and damage to it.
use crate::dict::Dict;
use crate::keys::*;
use crate::rng::Rng;
use crate::wire::*;

#[derive(Clone)]
pub struct CertM {
    pub kt: String,
    pub nonce: Vec<u8>,
    pub key: PubM,
    pub serial: u64,
    pub ct: u32,
    pub id: String,
    pub pr: Vec<String>,
    pub va: u64,
    pub vb: u64,
    pub cr: Vec<(String, String)>,
    pub ex: Vec<(String, String)>,
    pub rs: Vec<u8>,
    pub ca: PubM,
}
fn opts(v: &[(String, String)]) -> Vec<u8> {
    let mut w = W::new();
    for (n, x) in v {
        w = w.s(n);
        w = if x.is_empty() { w.b(b"") } else { w.b(&sb(x.as_bytes())) };
    }
    w.0
}
impl CertM {
    /// signed part, with the offsets at which its fields start
    pub fn tbs(&self) -> (Vec<u8>, Vec<(&'static str, usize)>) {
        let mut o = vec![];
        let mut w = W::new();
        o.push(("kt", 0));
        w = w.s(&self.kt);
        o.push(("nonce", w.0.len()));
        w = w.b(&self.nonce);
        o.push(("key", w.0.len()));
        w = w.raw(&self.key.data());
        o.push(("serial", w.0.len()));
        w = w.u64(self.serial);
        o.push(("ct", w.0.len()));
        w = w.u32(self.ct);
        o.push(("id", w.0.len()));
        w = w.s(&self.id);
        o.push(("pr", w.0.len()));
        let mut p = W::new();
        for x in &self.pr {
            p = p.s(x);
        }
        w = w.b(&p.0);
        o.push(("va", w.0.len()));
        w = w.u64(self.va);
        o.push(("vb", w.0.len()));
        w = w.u64(self.vb);
        o.push(("cr", w.0.len()));
        w = w.b(&opts(&self.cr));
        o.push(("ex", w.0.len()));
        w = w.b(&opts(&self.ex));
        o.push(("rs", w.0.len()));
        w = w.b(&self.rs);
        o.push(("ca", w.0.len()));
        w = w.b(&self.ca.enc());
        o.push(("end", w.0.len()));
        (w.0, o)
    }
    pub fn matches(&self, c: &sshcerts::Certificate) -> bool {
        let m = |v: &[(String, String)], h: &std::collections::HashMap<String, String>| v.len() == h.len() && v.iter().all(|(a, b)| h.get(a) == Some(b));
        c.key_type.name == self.kt
            && c.nonce == self.nonce
            && crate::api::pub_m(&c.key) == self.key
            && c.serial == self.serial
            && c.cert_type.clone() as u32 == self.ct
            && c.key_id == self.id
            && c.principals == self.pr
            && c.valid_after == self.va
            && c.valid_before == self.vb
            && m(&self.cr, &c.critical_options)
            && m(&self.ex, &c.extensions)
            && c.reserved == self.rs
            && crate::api::pub_m(&c.signature_key) == self.ca
    }
}
pub fn app(r: &mut Rng, d: &Dict) -> String {
    match r.n(9) {
        0 | 1 => "ssh:".into(),
        2 | 3 => r.text(d, 60),
        4 | 5 => format!("ssh:{}", r.word()),
        6 => {
            let n = r.len(d, 3000);
            format!("ssh:{}", "w".repeat(n))
        }
        _ => "ssh:test".into(),
    }
}
/// a plain public key of any type; not necessarily a usable one
pub fn any_pub(r: &mut Rng, d: &Dict) -> PubM {
    let kt = *r.pick(&PLAIN);
    pub_of(r, d, kt)
}
pub fn mp(r: &mut Rng, d: &Dict, max: usize) -> Vec<u8> {
    let mut v = r.blob(d, max);
    while !v.is_empty() && v[0] == 0 {
        v.remove(0);
    }
    v
}
pub fn pub_of(r: &mut Rng, d: &Dict, kt: &str) -> PubM {
    let a = app(r, d);
    match kt {
        "ssh-rsa" | "rsa-sha2-256" | "rsa-sha2-512" => {
            let mut k = match r.n(6) {
                0 => PubM { kt: kt.into(), p: vec![mp(r, d, 8), mp(r, d, 40)] },
                1 if r.big => {
                    // moduli beyond any key in use
                    let n = *r.pick(&[513usize, 600, 768, 1000, 1024, 1025, 1100, 1280, 1500, 2047, 2048, 2049, 2100, 4100]);
                    let mut v = r.bytes(n);
                    v[0] |= 1;
                    PubM { kt: kt.into(), p: vec![vec![1, 0, 1], v] }
                }
                _ => Signer::rsa(r).pk,
            };
            k.kt = kt.into();
            k
        }
        "ssh-ed25519" => {
            if r.chance(8) {
                PubM { kt: kt.into(), p: vec![r.blob(d, 70)] }
            } else {
                Signer::ed(r).pk
            }
        }
        "sk-ssh-ed25519@openssh.com" => Signer::ed_sk(r, &a).pk,
        "sk-ecdsa-sha2-nistp256@openssh.com" => Signer::ec_sk(r, &a).pk,
        _ => {
            let c = &kt["ecdsa-sha2-".len()..];
            if r.chance(8) {
                PubM { kt: kt.into(), p: vec![c.as_bytes().to_vec(), r.blob(d, 140)] }
            } else {
                Signer::ec(r, c).pk
            }
        }
    }
}
pub fn option_name(r: &mut Rng, d: &Dict) -> String {
    match r.n(6) {
        0 => (*r.pick(&["force-command", "source-address", "verify-required", "permit-pty", "permit-X11-forwarding", "permit-agent-forwarding", "permit-port-forwarding", "permit-user-rc", "no-touch-required"])).into(),
        1 => r.text(d, 64),
        2 => format!("{}@{}", r.word(), r.word()),
        _ => r.word(),
    }
}
/// options with distinct names
pub fn option_list(r: &mut Rng, d: &Dict) -> Vec<(String, String)> {
    let n = match r.n(8) {
        6 if r.big => *r.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257]),
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => r.n(12),
        5 => (d.small_int(r) % 40) as usize,
        _ => r.n(5),
    };
    let mut v: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = option_name(r, d);
        if v.iter().any(|x| x.0 == k) {
            continue;
        }
        let x = if r.chance(40) { String::new() } else { r.text(d, 200) };
        v.push((k, x));
    }
    // sometimes sorted as the standard wants, sometimes not
    if r.chance(50) {
        v.sort();
    }
    v
}
pub fn principals(r: &mut Rng, d: &Dict) -> Vec<String> {
    let n = match r.n(8) {
        4 if r.big => *r.pick(&[100usize, 127, 128, 129, 255, 256, 257, 300, 1000]),
        0 => 0,
        1 => 1,
        2 => r.n(20),
        3 => (d.small_int(r) % 70) as usize,
        _ => r.n(4),
    };
    let mut v: Vec<String> = (0..n).map(|_| if r.chance(60) { r.word() } else { r.text(d, 100) }).collect();
    if !v.is_empty() && r.chance(15) {
        let x = r.pick(&v).clone();
        v.push(x);
    }
    v
}
pub fn cert(r: &mut Rng, d: &Dict, ca: &PubM) -> CertM {
    let key = any_pub(r, d);
    let nonce = match r.n(6) {
        0 => r.blob(d, 200),
        1 => vec![],
        _ => r.bytes(32),
    };
    let (va, vb) = match r.n(6) {
        0 => (0, u64::MAX),
        1 => (0, 0),
        2 => (u64::MAX, 0),
        _ => (r.u64_pool(d), r.u64_pool(d)),
    };
    CertM {
        kt: cert_name(&key.kt),
        nonce,
        key,
        serial: r.u64_pool(d),
        ct: 1 + r.n(2) as u32,
        id: r.text(d, 300),
        pr: principals(r, d),
        va,
        vb,
        cr: option_list(r, d),
        ex: option_list(r, d),
        rs: if r.chance(80) { vec![] } else { r.blob(d, 64) },
        ca: ca.clone(),
    }
}

/// damage a byte string at one place; returns None when nothing changed
pub fn damage(r: &mut Rng, d: &Dict, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return vec![r.byte()];
    }
    let i = r.n(v.len());
    match r.n(9) {
        0 | 1 => v[i] ^= 1 << r.n(8),
        2 => {
            let x = r.byte_pool(d);
            v[i] = x;
        }
        3 => {
            v.remove(i);
        }
        4 => v.insert(i, r.byte_pool(d)),
        5 => v.truncate(i),
        6 => {
            let j = (i + 1 + r.n(16)).min(v.len());
            v.drain(i..j);
        }
        7 => {
            let x = d.bytes(r);
            let j = (i + x.len()).min(v.len());
            v.splice(i..j, x);
        }
        _ => {
            // duplicate a slice
            let j = (i + 1 + r.n(16)).min(v.len());
            let x = v[i..j].to_vec();
            v.splice(i..i, x);
        }
    }
    v
}

/// a key of the same type with components no sound verifier may trust
pub fn weird_pub(r: &mut Rng, d: &Dict, k: &PubM) -> PubM {
    let mut w = k.clone();
    match fam(&k.kt) {
        "rsa" => match r.n(8) {
            0..=2 => w.p[0] = r.pick(&[vec![], vec![1], vec![2], vec![3], vec![4], vec![1, 0, 0], vec![1, 0, 2], vec![255, 255, 255, 255, 255]]).clone(),
            3 => w.p[1] = mp(r, d, 40),
            4 => w.p[1] = vec![],
            5 => w.p[1] = vec![1],
            6 => {
                let n = w.p[1].len();
                w.p[1][n - 1] ^= 1;
            }
            _ => w.p[1].truncate(128),
        },
        "ecdsa" => match r.n(7) {
            0 => w.p[1] = vec![],
            1 => w.p[1] = vec![0],
            2 => {
                let n = (w.p[1].len() - 1) / 2;
                w.p[1] = [vec![2 + (w.p[1][2 * n] & 1)], w.p[1][1..=n].to_vec()].concat();
            }
            3 => w.p[1][0] = *r.pick(&[0, 2, 3, 5, 6, 7]),
            4 => {
                let i = r.n(w.p[1].len());
                w.p[1][i] ^= 1 << r.n(8);
            }
            5 => w.p[1].push(0),
            _ => w.p[1] = r.blob(d, 140),
        },
        _ => match r.n(5) {
            0 => w.p[0] = vec![],
            1 => w.p[0].push(0),
            2 => {
                w.p[0].pop();
            }
            3 => {
                let i = r.n(32);
                w.p[0][i] ^= 1 << r.n(8);
            }
            _ => w.p[0] = r.blob(d, 70),
        },
    }
    w
}
/// a signature blob that nobody with a key made
pub fn junk_sig(r: &mut Rng, d: &Dict, kt: &str) -> Vec<u8> {
    let sch = if r.chance(70) { if kt == "ssh-rsa" { *r.pick(&["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"]) } else { kt } } else { *r.pick(&ALL_TYPES) };
    let n = *r.pick(&[0usize, 1, 32, 64, 72, 96, 256]);
    let body = match r.n(6) {
        0 => vec![0; n],
        1 => W::new().b(&[]).b(&[]).0,
        2 => W::new().mp(&[1]).mp(&[1]).0,
        3 => r.blob(d, 300),
        4 => vec![255; n],
        _ => r.bytes(n),
    };
    let mut sg = W::new().s(sch).b(&body);
    if is_sk(kt) {
        sg = sg.raw(&[*r.pick(&[0u8, 1, 4, 5, 255])]).u32(*r.pick(&[0u32, 1, u32::MAX]));
    }
    sg.0
}
