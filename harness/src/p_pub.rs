//! C08: public keys.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::wire::*;

fn rd(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let n = u32::from_be_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize;
    Some((b.get(o + 4..)?.get(..n)?.to_vec(), o + 4 + n))
}
fn rs(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    rd(b, o).filter(|x| std::str::from_utf8(&x.0).is_ok())
}
fn rm(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let (v, o) = rd(b, o)?;
    if v.is_empty() {
        return Some((v, o));
    }
    if v[0] >= 128 || (v[0] == 0 && (v.len() == 1 || v[1] < 128)) {
        return None;
    }
    Some((if v[0] == 0 { v[1..].to_vec() } else { v }, o))
}
/// independent reading of a blob, used only to decide what to record
pub fn ref_pub(b: &[u8]) -> Option<PubM> {
    ref_pub_at(b).map(|x| x.0)
}
/// the same with the number of bytes used
pub fn ref_pub_at(b: &[u8]) -> Option<(PubM, usize)> {
    let (kt, o) = rs(b, 0)?;
    let kt = String::from_utf8(kt).unwrap();
    if !ALL_TYPES.contains(&kt.as_str()) || kt.contains("-cert-v01") {
        return None;
    }
    let mut p = vec![];
    let mut o = o;
    let mut get = |f: fn(&[u8], usize) -> Option<(Vec<u8>, usize)>| -> Option<()> {
        let (v, n) = f(b, o)?;
        o = n;
        p.push(v);
        Some(())
    };
    match fam(&kt) {
        "rsa" => {
            get(rm)?;
            get(rm)?;
        }
        "ecdsa" => {
            get(rs)?;
            get(rd)?;
            if is_sk(&kt) {
                get(rs)?;
            }
        }
        _ => {
            get(rd)?;
            if is_sk(&kt) {
                get(rs)?;
            }
        }
    }
    if fam(&kt) == "ecdsa" && !kt.contains(std::str::from_utf8(&p[0]).unwrap()) || fam(&kt) == "ecdsa" && !["nistp256", "nistp384", "nistp521"].iter().any(|c| c.as_bytes() == p[0]) {
        return None;
    }
    Some((PubM { kt, p }, o))
}
pub fn ref_line(t: &str) -> Option<(PubM, Option<String>)> {
    let w: Vec<&str> = t.split_whitespace().collect();
    if w.len() < 2 {
        return None;
    }
    let b = base64::decode(w[1]).ok()?;
    let k = ref_pub(&b)?;
    if k.kt != w[0] {
        return None;
    }
    Some((k, w.get(2).map(|x| x.to_string())))
}
pub fn line(s: &mut Sess, t: &str, path: bool) -> Option<sshcerts::PublicKey> {
    let k = s.pub_line(t, path);
    let want = ref_line(t);
    s.expect(k.as_ref().map(|k| (pub_m(k), k.comment.clone())) == want);
    k
}
pub fn blob(s: &mut Sess, b: &[u8]) -> Option<sshcerts::PublicKey> {
    let k = s.pub_blob(b);
    s.expect(k.as_ref().map(pub_m) == ref_pub(b) && k.as_ref().map(|k| k.comment.is_none()).unwrap_or(true));
    k
}
fn key(r: &mut Rng, d: &Dict) -> PubM {
    let kt = if r.chance(10) { *r.pick(&["rsa-sha2-256", "rsa-sha2-512"]) } else { *r.pick(&PLAIN) };
    let mut k = pub_of(r, d, kt);
    if r.chance(20) && fam(kt) != "rsa" {
        // any component bytes are data
        let j = if fam(kt) == "ecdsa" { 1 } else { 0 };
        k.p[j] = r.blob(d, 200);
    }
    k
}
pub fn c08(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let n = r.range(1, 3);
    for _ in 0..n {
        let k = key(r, d);
        let b = k.enc();
        s.x(&b);
        let sep = *r.pick(&[" ", " ", " ", "  ", "\t", " \t ", "\u{3000}", "\n"]);
        let mut t = format!("{}{}{sep}{}", if r.chance(10) { " " } else { "" }, k.kt, b64(&b));
        if r.chance(50) {
            t += sep;
            t += &r.text(d, 40);
        }
        if r.chance(30) {
            t += *r.pick(&["\n", "\r\n", " ", " x y"]);
        }
        let got = if r.chance(70) { line(&mut s, &t, r.chance(10)) } else { blob(&mut s, &b) };
        let Some(got) = got else { continue };
        s.pub_views(&got);
        if r.chance(60) {
            // what is printed reads back as the same key
            let t2 = format!("{got}");
            let back = line(&mut s, &t2, false);
            let mut want = k.clone();
            if fam(&want.kt) == "rsa" {
                want.kt = "ssh-rsa".into();
            }
            s.expect(back.as_ref().map(pub_m) == Some(want.clone()));
            let mut w = vec![];
            if got.write(&mut w).is_ok() {
                line(&mut s, &String::from_utf8_lossy(&w), false);
            }
            let back = blob(&mut s, &got.encode());
            s.expect(back.as_ref().map(pub_m) == Some(want));
        }
        let m = r.range(1, 4);
        for _ in 0..m {
            match r.n(12) {
                0 | 1 => {
                    let x = damage(r, d, &b);
                    blob(&mut s, &x);
                }
                2 => {
                    let x = damage(r, d, &b);
                    line(&mut s, &format!("{} {}", k.kt, b64(&x)), false);
                }
                3 => {
                    // label differs
                    let l = match r.n(5) {
                        0 => cert_name(&k.kt),
                        1 => k.kt.to_uppercase(),
                        2 => r.word(),
                        _ => (*r.pick(&ALL_TYPES)).to_string(),
                    };
                    line(&mut s, &format!("{l} {}", b64(&b)), false);
                }
                4 => {
                    // both label and inside say something else
                    let l = *r.pick(&ALL_TYPES);
                    let x = W::new().s(l).raw(&k.data()).0;
                    if r.chance(50) {
                        line(&mut s, &format!("{l} {}", b64(&x)), false);
                    } else {
                        blob(&mut s, &x);
                    }
                }
                5 => {
                    // curve and type
                    let c = match r.n(5) {
                        0 => r.text(d, 12),
                        1 => (*r.pick(&["p256", "nistp", "nistp2", "", "nistp2566", "256"])).to_string(),
                        _ => (*r.pick(&["nistp256", "nistp384", "nistp521"])).to_string(),
                    };
                    let kt = *r.pick(&["ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "sk-ecdsa-sha2-nistp256@openssh.com"]);
                    let mut w = W::new().s(kt).s(&c).b(&r.blob(d, 140));
                    if is_sk(kt) {
                        w = w.s("ssh:");
                    }
                    blob(&mut s, &w.0);
                }
                6 => {
                    let n = r.n(b.len());
                    blob(&mut s, &b[..n]);
                }
                7 => {
                    // text damage
                    let mut c: Vec<char> = t.chars().collect();
                    let i = r.n(c.len());
                    match r.n(4) {
                        0 => c[i] = r.uchar(),
                        1 => {
                            c.remove(i);
                        }
                        2 => c.insert(i, *r.pick(&['=', ' ', '-', '_', '\n', 'A', '/'])),
                        _ => c.truncate(i),
                    }
                    let t: String = c.into_iter().collect();
                    line(&mut s, &t, false);
                }
                8 => {
                    // integers not in minimal form
                    let mut v = r.blob(d, 30);
                    v.insert(0, *r.pick(&[0, 128, 255]));
                    let w = if r.chance(50) { W::new().s("ssh-rsa").b(&v).mp(&[9]) } else { W::new().s("ssh-rsa").mp(&[3]).b(&v) };
                    blob(&mut s, &w.0);
                }
                9 => {
                    // a certificate is not a key
                    let ca = Signer::ed(r);
                    let c = cert(r, d, &ca.pk);
                    let i = crate::p_cert::issue_m(&mut s, r, c, ca);
                    if r.chance(50) {
                        let g = blob(&mut s, &i.b);
                        s.expect(g.is_none());
                    } else {
                        let g = line(&mut s, &crate::p_cert::text_of(&i.m, &i.b), false);
                        s.expect(g.is_none());
                    }
                }
                10 => {
                    // something after the key
                    let x = [b.clone(), r.blob(d, 12)].concat();
                    blob(&mut s, &x);
                }
                _ => {
                    let t = r.text(d, 80);
                    line(&mut s, &t, false);
                }
            }
        }
    }
    s
}
