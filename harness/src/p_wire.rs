//! C15, C16 and C24: reader, writer and the registry of names.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::wire::*;
use sshcerts::ssh::*;
use std::convert::TryFrom;

const KINDS: [&str; 7] = ["bytes", "string", "mpint", "u32", "u64", "raw", "cstring"];
fn cap(n: usize) -> usize {
    n.min(1 << 30)
}
/// a reader under observation together with an independent one
pub struct Rd<'a> {
    h: usize,
    b: &'a [u8],
    o: usize,
    rd: Reader<'a>,
}
impl Rd<'_> {
    pub fn at(&self) -> usize {
        self.o
    }
}
impl Sess {
    pub fn r_new<'a>(&mut self, b: &'a [u8]) -> Rd<'a> {
        let h = self.h();
        let rd = Reader::new(b);
        let x = self.x(b);
        self.push("r_new", &[("h", h.to_string()), ("in", x), ("o", cap(rd.get_offset()).to_string())]);
        Rd { h, b, o: 0, rd }
    }
    pub fn r_set(&mut self, r: &mut Rd<'_>, to: usize) {
        self.calls += 1;
        let ok = callv("r_set", b"", || r.rd.set_offset(to)).ok();
        self.expect(matches!(ok, Some(Ok(()))));
        r.o = to;
        self.push("r_set", &[("h", r.h.to_string()), ("to", cap(to).to_string()), ("o", cap(r.rd.get_offset()).to_string())]);
        self.expect(r.rd.get_offset() == to);
    }
    pub fn r_read(&mut self, r: &mut Rd<'_>, k: &str, n: usize) -> bool {
        self.calls += 1;
        let b = r.b;
        let rd = &mut r.rd;
        let res: R<Vec<u8>> = call("r_read", b, || {
            Ok(match k {
                "bytes" => rd.read_bytes()?,
                "string" => rd.read_string()?.into_bytes(),
                "mpint" => rd.read_positive_mpint()?,
                "u32" => rd.read_u32()?.to_be_bytes().to_vec(),
                "u64" => rd.read_u64()?.to_be_bytes().to_vec(),
                "raw" => rd.read_raw_bytes(n)?,
                _ => rd.read_cstring()?.into_bytes(),
            })
        });
        let st = res.st();
        let v = res.ok();
        let o = r.rd.get_offset();
        let want = model_read(b, r.o, k, n);
        self.push("r_read", &[("h", r.h.to_string()), ("k", q(k)), ("n", cap(n).to_string()), ("st", st.clone()), ("v", arr(v.as_deref().unwrap_or(&[]))), ("o", cap(o).to_string())]);
        self.expect(match (&want, &v) {
            (Some((x, y)), Some(z)) => x == z && *y == o,
            (None, None) => st == "\"err\"",
            _ => false,
        });
        r.o = o;
        v.is_some()
    }
}
fn model_read(b: &[u8], o: usize, k: &str, n: usize) -> Option<(Vec<u8>, usize)> {
    if o >= b.len() {
        return None;
    }
    let t = &b[o..];
    let pre = || -> Option<(Vec<u8>, usize)> {
        let n = u32::from_be_bytes(t.get(..4)?.try_into().unwrap()) as usize;
        Some((t[4..].get(..n)?.to_vec(), o + 4 + n))
    };
    match k {
        "bytes" => pre(),
        "string" => pre().filter(|x| std::str::from_utf8(&x.0).is_ok()),
        "mpint" => {
            let (v, o) = pre()?;
            if v.is_empty() {
                return Some((v, o));
            }
            if v[0] >= 128 || (v[0] == 0 && (v.len() == 1 || v[1] < 128)) {
                return None;
            }
            Some((if v[0] == 0 { v[1..].to_vec() } else { v }, o))
        }
        "u32" => Some((t.get(..4)?.to_vec(), o + 4)),
        "u64" => Some((t.get(..8)?.to_vec(), o + 8)),
        "raw" => Some((t.get(..n)?.to_vec(), o + n)),
        _ => {
            let i = t.iter().position(|x| *x == 0)?;
            Some((t[..i].iter().map(|x| *x as char).collect::<String>().into_bytes(), o + i + 1))
        }
    }
}
fn value(r: &mut Rng, d: &Dict, w: W) -> (W, &'static str) {
    match r.n(9) {
        0 => (w.b(&r.blob(d, 600)), "bytes"),
        1 => (w.s(&r.text(d, 200)), "string"),
        2 => (w.mp(&r.blob(d, 300)), "mpint"),
        3 => (w.u32(r.u32_pool(d)), "u32"),
        4 => (w.u64(r.u64_pool(d)), "u64"),
        5 => (w.raw(&r.blob(d, 20)), "raw"),
        6 => {
            let t: Vec<u8> = r.blob(d, 40).into_iter().filter(|x| *x != 0).collect();
            (w.raw(&t).raw(&[0]), "cstring")
        }
        // integers that are not minimal or negative
        7 => {
            let mut v = r.blob(d, 20);
            v.insert(0, *r.pick(&[0u8, 128, 255, 127]));
            (w.b(&v), "mpint")
        }
        // strings that are not UTF-8
        _ => {
            let mut v = r.text(d, 30).into_bytes();
            let i = r.n(v.len() + 1);
            let bad: &[&[u8]] = &[&[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80], &[0xe2, 0x82], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xc2, 0x80], &[0xef, 0xbf, 0xbf]];
            v.splice(i..i, r.pick(bad).iter().copied());
            (w.b(&v), "string")
        }
    }
}
/// C15
pub fn c15(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.n(7);
    let mut w = W::new();
    let mut ks = vec![];
    for _ in 0..n {
        let (w2, k) = value(r, d, w);
        w = w2;
        ks.push(k);
    }
    let mut b = w.0;
    let mut wild = false;
    match r.n(6) {
        0 => b = damage(r, d, &b),
        1 => {
            let k = r.n(b.len() + 1);
            b.truncate(k)
        }
        2 => {
            // a length prefix that promises too much or exactly enough
            b = r.blob(d, 40);
            let l = match r.n(5) {
                0 => b.len() as u32,
                1 => b.len() as u32 + 1,
                2 => u32::MAX - r.n(8) as u32,
                3 => 0x8000_0000,
                _ => r.u32_pool(d),
            };
            b.splice(0..0, l.to_be_bytes());
            wild = true;
        }
        _ => {}
    }
    let mut rd = s.r_new(&b);
    for k in &ks {
        let n = r.n(10);
        let k = if r.chance(80) && !wild { k } else { *r.pick(&KINDS) };
        s.r_read(&mut rd, k, n);
    }
    let extra = r.n(6);
    for _ in 0..extra {
        if r.chance(40) {
            let to = match r.n(5) {
                0 => b.len(),
                1 => b.len() + r.n(5),
                2 => *r.pick(&[usize::MAX, usize::MAX - 3, usize::MAX / 2, 1 << 32, (1 << 32) - 4]),
                _ => r.n(b.len() + 1),
            };
            s.r_set(&mut rd, to);
        }
        let k = *r.pick(&KINDS);
        let n = match r.n(6) {
            0 => 0,
            1 => b.len().saturating_sub(rd.o),
            2 => b.len().saturating_sub(rd.o).saturating_add(1),
            3 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32]),
            _ => r.n(12),
        };
        s.r_read(&mut rd, k, n);
    }
    s
}

/// C16
pub fn c16(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let h = s.h();
    let mut w = if r.chance(50) { Writer::new() } else { Writer::default() };
    s.push("w_new", &[("h", h.to_string()), ("out", arr(w.as_bytes()))]);
    let mut m = W::new();
    let mut back: Vec<(&str, usize)> = vec![];
    let n = r.range(1, 7);
    for _ in 0..n {
        let (k, v): (&str, String);
        s.calls += 1;
        let mut fine = true;
        match r.n(12) {
            0 => {
                let t: String = r.text(d, 60);
                k = "cstring";
                v = arr(t.as_bytes());
                m = m.raw(t.as_bytes()).raw(&[0]);
                fine &= callv(k, b"", || w.write_cstring(&t)).is_ok();
                // reading back gives the characters only for ASCII without NUL
                back.push((if t.is_ascii() && !t.contains('\0') { "cstring" } else { "raw" }, t.len() + 1));
            }
            1 => {
                let t = r.blob(d, 2100);
                k = "bytes";
                v = arr(&t);
                m = m.b(&t);
                fine &= callv(k, b"", || w.write_bytes(&t)).is_ok();
                back.push((k, 0));
            }
            2 => {
                let t = r.text(d, 700);
                k = "string";
                v = arr(t.as_bytes());
                m = m.s(&t);
                fine &= callv(k, b"", || w.write_string(&t)).is_ok();
                back.push((k, 0));
            }
            3 => {
                let t = r.blob(d, 60);
                k = "raw";
                v = arr(&t);
                m = m.raw(&t);
                fine &= callv(k, b"", || w.write_raw_bytes(&t)).is_ok();
                back.push((k, t.len()));
            }
            4 => {
                let t = r.u32_pool(d);
                k = "u32";
                v = arr(&t.to_be_bytes());
                m = m.u32(t);
                fine &= callv(k, b"", || w.write_u32(t)).is_ok();
                back.push((k, 0));
            }
            5 => {
                let t = r.u64_pool(d);
                k = "u64";
                v = arr(&t.to_be_bytes());
                m = m.u64(t);
                fine &= callv(k, b"", || w.write_u64(t)).is_ok();
                back.push((k, 0));
            }
            6 | 7 => {
                let mut t = r.blob(d, 600);
                if r.chance(30) {
                    let z = r.n(5);
                    t.splice(0..0, vec![0; z]);
                }
                k = "mpint";
                v = arr(&t);
                m = m.mp(&t);
                fine &= callv(k, b"", || w.write_mpint(&t)).is_ok();
                back.push((k, 0));
            }
            8 => {
                let t = principals(r, d);
                k = "strings";
                v = arrs(&t);
                let mut i = W::new();
                for x in &t {
                    i = i.s(x);
                }
                m = m.b(&i.0);
                fine &= callv(k, b"", || w.write_string_vec(&t)).is_ok();
                back.push(("bytes", 0));
            }
            9 => {
                let mut t = option_list(r, d);
                t.sort();
                k = "map";
                v = format!("[{}]", t.iter().map(|(a, b)| format!("[{},{}]", arr(a.as_bytes()), arr(b.as_bytes()))).collect::<Vec<_>>().join(","));
                let mut i = W::new();
                for (a, b) in &t {
                    i = i.s(a);
                    i = if b.is_empty() { i.b(b"") } else { i.b(&sb(b.as_bytes())) };
                }
                m = m.b(&i.0);
                let map = t.iter().cloned().collect();
                fine &= callv(k, b"", || w.write_string_map(&map)).is_ok();
                back.push(("bytes", 0));
            }
            _ => {
                let p = any_pub(r, d);
                let pk = p.ssh();
                v = pub_j(&pk);
                if r.chance(60) {
                    k = "pubkey";
                    m = m.b(&p.enc());
                    fine &= callv(k, b"", || w.write_pub_key(&pk)).is_ok();
                    back.push(("bytes", 0));
                } else {
                    k = "pubdata";
                    m = m.raw(&p.data());
                    fine &= callv(k, b"", || w.write_pub_key_data(&pk)).is_ok();
                    back.push(("raw", p.data().len()));
                }
            }
        }
        s.push("w_write", &[("h", h.to_string()), ("k", q(k)), ("v", v), ("out", arr(w.as_bytes()))]);
        s.expect(fine && w.as_bytes() == m.0);
    }
    let out = w.into_bytes();
    s.expect(out == m.0);
    // what was written reads back
    let mut rd = s.r_new(&out);
    for (k, n) in back {
        s.r_read(&mut rd, k, n);
    }
    s
}

pub fn role(s: &mut Sess, t: &str) {
    s.calls += 1;
    let r = callo("role", t.as_bytes(), || CertType::try_from(t).ok());
    let st = r.st();
    let mut f = vec![("in", format!("{{\"d\":{}}}", arr(t.as_bytes()))), ("st", st)];
    let o = r.ok();
    if let Some(c) = &o {
        f.push(("out", (*c as u32).to_string()));
        f.push(("disp", arr(format!("{c}").as_bytes())));
    }
    s.push("role", &f);
    let want = match t {
        "user" | "User" => Some(1),
        "host" | "Host" => Some(2),
        _ => None,
    };
    s.expect(o.map(|c| c as u32) == want);
}
pub fn kt(s: &mut Sess, t: &str) -> Option<KeyType> {
    s.calls += 1;
    let r = call("kt", t.as_bytes(), || KeyType::from_name(t));
    let mut f = vec![("in", format!("{{\"d\":{}}}", arr(t.as_bytes()))), ("st", r.st())];
    let o = r.ok();
    if let Some(k) = &o {
        let kind = match k.kind {
            KeyTypeKind::Rsa => "Rsa",
            KeyTypeKind::Ed25519 => "Ed25519",
            KeyTypeKind::Ecdsa => "Ecdsa",
            KeyTypeKind::RsaCert => "RsaCert",
            KeyTypeKind::Ed25519Cert => "Ed25519Cert",
            KeyTypeKind::EcdsaCert => "EcdsaCert",
        };
        let cn = callv("kt_cert", b"", || k.as_cert_name()).ok().unwrap_or("<panic>".into());
        let pn = callv("kt_pub", b"", || k.as_pubkey_name()).ok().unwrap_or("<panic>".into());
        f.push((
            "out",
            format!(
                "{{\"name\":{},\"plain\":{},\"short\":{},\"cert\":{},\"sk\":{},\"kind\":{},\"certname\":{},\"pubname\":{},\"disp\":{}}}",
                q(k.name),
                q(k.plain),
                q(k.short_name),
                k.is_cert,
                k.is_sk,
                q(kind),
                q(&cn),
                q(&pn),
                q(&format!("{k}"))
            ),
        ));
    }
    s.push("kt", &f);
    s.expect(o.is_some() == ALL_TYPES.contains(&t));
    o
}
pub fn curve(s: &mut Sess, t: &str) {
    s.calls += 1;
    let r = call("curve", t.as_bytes(), || Curve::from_identifier(t));
    let mut f = vec![("in", format!("{{\"d\":{}}}", arr(t.as_bytes()))), ("st", r.st())];
    let o = r.ok();
    if let Some(c) = &o {
        let kind = match c.kind {
            CurveKind::Nistp256 => "nistp256",
            CurveKind::Nistp384 => "nistp384",
            CurveKind::Nistp521 => "nistp521",
        };
        f.push(("out", format!("{{\"id\":{},\"kind\":{}}}", q(c.identifier), q(kind))));
    }
    s.push("curve", &f);
    s.expect(o.is_some() == ["nistp256", "nistp384", "nistp521"].contains(&t));
}
/// variants of a name that must not be taken for it
fn near(r: &mut Rng, d: &Dict, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len();
    match r.n(14) {
        0 => c.iter().map(|x| x.to_ascii_uppercase()).collect(),
        1 => {
            let i = r.n(n);
            c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        2 => {
            let i = r.n(n);
            c.remove(i);
            c.into_iter().collect()
        }
        3 => {
            let i = r.n(n + 1);
            let x = r.uchar();
            c.insert(i, x);
            c.into_iter().collect()
        }
        4 => {
            let i = r.n(n);
            c[i] = *r.pick(&['0', '1', '-', '_', '@', 'x', ' ']);
            c.into_iter().collect()
        }
        5 => t[..r.n(n)].to_string(),
        6 => t[r.n(n)..].to_string(),
        7 => format!(" {t}"),
        8 => format!("{t} "),
        9 => format!("{t}\0"),
        10 => format!("{t}{}", r.pick(&["-cert-v01@openssh.com", "@openssh.com", "-cert-v01", "-cert-v00@openssh.com", "-cert"])),
        11 => t.replace("@openssh.com", ""),
        12 => d.string(r),
        _ => r.text(d, 60),
    }
}
/// C24
pub fn c24(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(8, 20);
    let fixed = ["ssh-dss", "RSA", "ECDSA", "ED25519", "secp256r1", "prime256v1", "P-256", "nistp224", "nistp192", "nistk163", "ssh-ed448", "x509v3-ssh-rsa", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com", "rsa-sha2-256-cert-v01@openssh.com", "rsa-sha2-512-cert-v01@openssh.com", "sk-ssh-ed25519", "sk-ecdsa-sha2-nistp256", "sk-ssh-ed25519@openssh.com-cert-v01@openssh.com", "sk-ecdsa-sha2-nistp384@openssh.com", ""];
    for _ in 0..n {
        match r.n(10) {
            0..=2 => {
                let t = *r.pick(&ALL_TYPES);
                if let Some(k) = kt(&mut s, t) {
                    // closed under both conversions
                    if r.chance(60) {
                        kt(&mut s, &k.as_cert_name());
                        kt(&mut s, &k.as_pubkey_name());
                    }
                }
            }
            3 | 4 => {
                let base = *r.pick(&ALL_TYPES);
                let t = near(r, d, base);
                kt(&mut s, &t);
            }
            5 => {
                let t = *r.pick(&fixed);
                kt(&mut s, t);
                curve(&mut s, t);
            }
            6 => curve(&mut s, r.pick(&["nistp256", "nistp384", "nistp521"])),
            7 => {
                let base = *r.pick(&["nistp256", "nistp384", "nistp521"]);
                let t = near(r, d, base);
                curve(&mut s, &t);
            }
            8 => {
                let base = *r.pick(&["user", "host", "User", "Host"]);
                let t = if r.chance(50) { base.to_string() } else { near(r, d, base) };
                role(&mut s, &t);
            }
            _ => {
                let t = r.text(d, 60);
                kt(&mut s, &t);
                curve(&mut s, &t);
            }
        }
    }
    s
}
