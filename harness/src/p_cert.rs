//! C01 and C02: importing certificates.
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::wire::*;

pub struct Issued {
    pub m: CertM,
    pub k: Signer,
    pub tbs: Vec<u8>,
    pub off: Vec<(&'static str, usize)>,
    pub sig: Vec<u8>,
    pub b: Vec<u8>,
}
pub fn issue(s: &mut Sess, r: &mut Rng, d: &Dict) -> Issued {
    let a = app(r, d);
    let k = Signer::any(r, &a);
    let m = cert(r, d, &k.pk);
    issue_m(s, r, m, k)
}
pub fn issue_m(s: &mut Sess, r: &mut Rng, m: CertM, k: Signer) -> Issued {
    let (tbs, off) = m.tbs();
    s.x(&tbs); // a base for everything derived from it
    let sig = s.sign(r, &k, &tbs);
    let b = [tbs.clone(), sb(&sig)].concat();
    Issued { m, k, tbs, off, sig, b }
}
pub fn text_of(m: &CertM, b: &[u8]) -> String {
    format!("{} {}", m.kt, b64(b))
}
fn accept(s: &mut Sess, r: &mut Rng, d: &Dict, i: &Issued) {
    match r.n(4) {
        0 => {
            let c = s.cert_bytes(&i.b);
            s.expect(c.map(|c| i.m.matches(&c) && c.signature == i.sig && c.serialized == i.b).unwrap_or(false));
        }
        _ => {
            let cm = match r.n(3) {
                0 => String::new(),
                1 => format!(" {}", r.word()),
                _ => {
                    // now and then the comment is a value from the certificate itself
                    let w = match r.n(6) {
                        0 => i.m.id.clone(),
                        1 => i.m.pr.first().cloned().unwrap_or_default(),
                        2 => i.m.kt.clone(),
                        3 => i.m.serial.to_string(),
                        4 => i.m.ex.first().map(|x| x.0.clone()).unwrap_or_default(),
                        _ => r.text(d, 40),
                    };
                    format!("  {w} {}", r.word())
                }
            };
            let t = text_of(&i.m, &i.b) + &cm + if r.chance(30) { "\n" } else { "" };
            let p = r.chance(10);
            let c = s.cert_text(&t, p, None);
            let w = cm.split_whitespace().next().map(|x| x.to_string());
            s.expect(c.map(|c| i.m.matches(&c) && c.signature == i.sig && c.serialized == i.b && c.comment == w).unwrap_or(false));
        }
    }
}
/// submit bytes that must be rejected (as far as the generator can tell)
fn reject(s: &mut Sess, r: &mut Rng, kt: &str, b: &[u8]) {
    if r.chance(75) {
        let c = s.cert_bytes(b);
        s.expect(c.is_none());
    } else {
        let c = s.cert_text(&format!("{kt} {}", b64(b)), false, None);
        s.expect(c.is_none());
    }
}

/// C01: authenticity
pub fn c01(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let i = issue(&mut s, r, d);
    let n = r.range(4, 9);
    if r.chance(70) {
        accept(&mut s, r, d, &i);
    }
    let other = if r.chance(60) { Some(issue(&mut s, r, d)) } else { None };
    for _ in 0..n {
        match r.n(18) {
            // the CA field holds something that is no proper key
            16 | 17 => {
                let mut m = i.m.clone();
                m.ca = weird_pub(r, d, &i.k.pk);
                let (t, _) = m.tbs();
                let sg = if r.chance(50) { s.sign(r, &i.k, &t) } else { junk_sig(r, d, &m.ca.kt) };
                reject(&mut s, r, &m.kt, &[t, sb(&sg)].concat());
            }
            // a signed byte changes
            0..=4 => {
                let p = r.n(i.tbs.len());
                let mut b = i.b.clone();
                b[p] ^= 1 << r.n(8);
                reject(&mut s, r, &i.m.kt, &b);
            }
            // a named field changes
            5 | 6 => {
                let j = r.n(i.off.len() - 1);
                let (a, e) = (i.off[j].1, i.off[j + 1].1);
                let f = damage(r, d, &i.tbs[a..e]);
                if f == i.tbs[a..e] {
                    continue;
                }
                let mut t = i.tbs.clone();
                t.splice(a..e, f);
                reject(&mut s, r, &i.m.kt, &[t, sb(&i.sig)].concat());
            }
            // a well-formed certificate with one other value keeps the signature
            7 | 8 => {
                let mut m = i.m.clone();
                match r.n(12) {
                    0 => m.serial = m.serial.wrapping_add(1 << r.n(64)),
                    1 => m.ct = 3 - m.ct,
                    2 => m.id.push('x'),
                    3 => m.pr.push("root".into()),
                    4 => {
                        if m.pr.pop().is_none() {
                            m.pr.push(String::new())
                        }
                    }
                    5 => m.va = m.va.wrapping_sub(1 << r.n(64)),
                    6 => m.vb = m.vb.wrapping_add(1 << r.n(64)),
                    7 => {
                        if m.cr.pop().is_none() {
                            m.cr.push(("a".into(), "".into()))
                        }
                    }
                    8 => m.ex.push(("permit-everything".into(), "".into())),
                    9 => m.nonce.push(0),
                    10 => m.rs.push(r.byte()),
                    _ => m.key = Signer::ed(r).pk,
                }
                if m.key.kt != i.m.key.kt {
                    m.kt = cert_name(&m.key.kt);
                }
                let (t, _) = m.tbs();
                if t == i.tbs {
                    continue;
                }
                reject(&mut s, r, &m.kt, &[t, sb(&i.sig)].concat());
            }
            // the signature changes
            9 | 10 => {
                let f = damage(r, d, &i.sig);
                // trailing bytes in the signature blob are not covered here
                if f.starts_with(&i.sig) {
                    continue;
                }
                let want = crate::p_sig::ref_verify(&i.k.pk, &f, &i.tbs);
                let c = s.cert_bytes(&[i.tbs.clone(), sb(&f)].concat());
                s.expect(c.is_some() == want);
            }
            // truncation
            11 => {
                let k = r.n(i.b.len());
                reject(&mut s, r, &i.m.kt, &i.b[..k].to_vec());
            }
            // transplanted signatures and keys
            12 => {
                if let Some(o) = &other {
                    reject(&mut s, r, &i.m.kt, &[i.tbs.clone(), sb(&o.sig)].concat());
                }
            }
            13 => {
                // same content, CA field replaced by another key: the old
                // signature no longer fits
                let a = app(r, d);
                let k = Signer::any(r, &a);
                if k.pk.p == i.k.pk.p {
                    continue;
                }
                let mut m = i.m.clone();
                m.ca = k.pk.clone();
                let (t, _) = m.tbs();
                reject(&mut s, r, &m.kt, &[t.clone(), sb(&i.sig)].concat());
                // and signed by a key other than the one it names
                if r.chance(50) {
                    let k2 = Signer::any(r, &a);
                    if k2.pk.p != k.pk.p {
                        let sg = s.sign(r, &k2, &t);
                        reject(&mut s, r, &m.kt, &[t, sb(&sg)].concat());
                    }
                }
            }
            14 => {
                // signed over something else: a prefix, a suffix, the whole
                let part = match r.n(6) {
                    0 => i.tbs[..i.tbs.len() - 1].to_vec(),
                    1 => i.tbs[1..].to_vec(),
                    2 => vec![],
                    3 => [i.tbs.clone(), sb(&i.sig)].concat(),
                    4 => [i.tbs.clone(), vec![0, 0, 0, 0]].concat(),
                    _ => {
                        let o = r.pick(&i.off).1;
                        i.tbs[..o].to_vec()
                    }
                };
                if part != i.tbs {
                    let sg = s.sign(r, &i.k, &part);
                    reject(&mut s, r, &i.m.kt, &[i.tbs.clone(), sb(&sg)].concat());
                }
            }
            _ => {
                // a self-made signature of zeros, an empty one, another scheme name
                let sg = junk_sig(r, d, &i.k.pk.kt);
                reject(&mut s, r, &i.m.kt, &[i.tbs.clone(), sb(&sg)].concat());
            }
        }
    }
    if r.chance(40) {
        accept(&mut s, r, d, &i);
    }
    s
}

/// C02: decoding.  Everything is properly signed; what is wrong is the content.
pub fn c02(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(1, 4);
    for _ in 0..n {
        let a = app(r, d);
        let k = Signer::any(r, &a);
        let mut m = cert(r, d, &k.pk);
        match r.n(12) {
            0..=4 => {
                let i = issue_m(&mut s, r, m, k);
                accept(&mut s, r, d, &i);
                if r.chance(30) {
                    // text form: other labels and layouts
                    let t = b64(&i.b);
                    let lab = match r.n(8) {
                        0 => i.m.key.kt.clone(),
                        1 => (*r.pick(&ALL_TYPES)).to_string(),
                        2 => i.m.kt.to_uppercase(),
                        3 => format!("{} ", i.m.kt),
                        4 => i.m.kt[..i.m.kt.len() - 1].to_string(),
                        5 => format!("{}x", i.m.kt),
                        6 => String::new(),
                        _ => i.m.kt.clone(),
                    };
                    let t = match r.n(6) {
                        0 => t.trim_end_matches('=').to_string(),
                        1 => format!("{t}="),
                        2 => {
                            let mut v = t.into_bytes();
                            let j = r.n(v.len());
                            v[j] = *r.pick(b"-_=.A/ \n~");
                            String::from_utf8(v).unwrap()
                        }
                        3 => t[..r.n(t.len())].to_string(),
                        _ => t,
                    };
                    let sep = *r.pick(&[" ", "  ", "\t", "\n", "\u{a0}", "\u{2003}", ","]);
                    let tail = *r.pick(&["", " c", " c d", "\n", "\r\n", " \"q", " \u{e9}\u{1F600}"]);
                    let c = s.cert_text(&format!("{lab}{sep}{t}{tail}"), r.chance(10), None);
                    if lab.trim() != i.m.kt {
                        s.expect(c.is_none());
                    }
                }
            }
            5 => {
                // role values
                m.ct = match r.n(4) {
                    0 => 0,
                    1 => 3,
                    _ => r.u32_pool(d),
                };
                let want = m.ct == 1 || m.ct == 2;
                let i = issue_m(&mut s, r, m, k);
                let c = s.cert_bytes(&i.b);
                s.expect(c.is_some() == want);
            }
            6 => {
                // type inside
                m.kt = match r.n(3) {
                    0 => m.key.kt.clone(),
                    1 => (*r.pick(&ALL_TYPES)).to_string(),
                    _ => r.text(d, 60),
                };
                let i = issue_m(&mut s, r, m, k);
                let c = s.cert_bytes(&i.b);
                if i.m.kt != cert_name(&i.m.key.kt) && !i.m.kt.contains("cert") {
                    s.expect(c.is_none());
                }
            }
            7 => {
                // repeated option names
                let l = if r.chance(50) { &mut m.cr } else { &mut m.ex };
                if l.is_empty() {
                    l.push((r.word(), r.word()));
                }
                let mut x = r.pick(l).clone();
                if r.chance(50) {
                    x.1 = r.word();
                }
                let at = r.n(l.len() + 1);
                l.insert(at, x);
                let i = issue_m(&mut s, r, m, k);
                let c = s.cert_bytes(&i.b);
                s.expect(c.is_none());
            }
            8 => {
                // a field damaged, then everything properly signed
                let (t, o) = m.tbs();
                let j = r.n(o.len() - 1);
                let (a, e) = (o[j].1, o[j + 1].1);
                let f = damage(r, d, &t[a..e]);
                let mut t2 = t.clone();
                t2.splice(a..e, f);
                s.x(&t2);
                let sg = s.sign(r, &k, &t2);
                s.cert_bytes(&[t2, sb(&sg)].concat());
            }
            9 => {
                // a nested buffer damaged (principals, options, CA key)
                let (t, o) = m.tbs();
                let pick = *r.pick(&["pr", "cr", "ex", "ca", "nonce", "id", "rs"]);
                let j = o.iter().position(|x| x.0 == pick).unwrap();
                let (a, e) = (o[j].1, o[j + 1].1);
                let mut inner = t[a + 4..e].to_vec();
                let times = r.range(1, 2);
                for _ in 0..times {
                    inner = damage(r, d, &inner);
                }
                let mut t2 = t.clone();
                t2.splice(a..e, sb(&inner));
                s.x(&t2);
                let sg = s.sign(r, &k, &t2);
                s.cert_bytes(&[t2, sb(&sg)].concat());
            }
            10 => {
                // option data that is not a single string
                let l = opts_raw(r, d);
                let (t, o) = m.tbs();
                let pick = *r.pick(&["cr", "ex"]);
                let j = o.iter().position(|x| x.0 == pick).unwrap();
                let (a, e) = (o[j].1, o[j + 1].1);
                let mut t2 = t.clone();
                t2.splice(a..e, sb(&l));
                s.x(&t2);
                let sg = s.sign(r, &k, &t2);
                s.cert_bytes(&[t2, sb(&sg)].concat());
            }
            _ => {
                // bytes after the signature, or truncated before it
                let i = issue_m(&mut s, r, m, k);
                if r.chance(50) {
                    let mut b = i.b.clone();
                    let k = r.range(1, 12);
                    b.extend(r.bytes(k));
                    s.cert_bytes(&b);
                } else {
                    let n = r.range(0, i.b.len() - 1);
                    let c = s.cert_bytes(&i.b[..n]);
                    s.expect(c.is_none());
                }
            }
        }
    }
    s
}
fn opts_raw(r: &mut Rng, d: &Dict) -> Vec<u8> {
    let n = r.range(1, 3);
    let mut w = W::new();
    for j in 0..n {
        w = w.s(&format!("{}{j}", r.word()));
        w = match r.n(5) {
            0 => w.b(&r.blob(d, 20)),
            1 => w.b(&sb(&r.blob(d, 20))),
            2 => w.b(&[sb(r.word().as_bytes()), r.blob(d, 8)].concat()),
            3 => w.b(&[0, 0, 0, 0]),
            _ => w.b(&sb(r.word().as_bytes())),
        };
    }
    w.0
}
