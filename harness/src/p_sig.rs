//! C05, C06 and C07: detached signatures and signature schemes.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::p_cert::issue_m;
use crate::p_priv::*;
use crate::rng::Rng;
use crate::wire::*;
use sshcerts::ssh::*;

pub const SB: &str = "-----BEGIN SSH SIGNATURE-----";
pub const SE: &str = "-----END SSH SIGNATURE-----";

#[derive(Clone)]
pub struct SigM {
    pub magic: Vec<u8>,
    pub ver: u32,
    pub key: Vec<u8>,
    pub ns: String,
    pub rsv: Vec<u8>,
    pub ha: String,
    pub sig: Vec<u8>,
}
impl SigM {
    pub fn bytes(&self) -> Vec<u8> {
        W::new().raw(&self.magic).u32(self.ver).b(&self.key).s(&self.ns).b(&self.rsv).s(&self.ha).b(&self.sig).0
    }
    pub fn text(&self) -> String {
        armor(&self.bytes(), SB, SE, 76, "\n")
    }
}
pub fn signed_data(ns: &str, rsv: &[u8], ha: &str, digest: &[u8]) -> Vec<u8> {
    W::new().raw(b"SSHSIG").s(ns).b(rsv).s(ha).b(digest).0
}
pub fn detached(s: &mut Sess, r: &mut Rng, k: &Signer, msg: &[u8], ns: &str, ha: &str) -> SigM {
    let data = signed_data(ns, b"", ha, &sha(ha, msg));
    let sig = s.sign(r, k, &data);
    SigM { magic: b"SSHSIG".to_vec(), ver: 1, key: k.pk.enc(), ns: ns.into(), rsv: vec![], ha: ha.into(), sig }
}

/// independent verification, used only to decide which sessions to record
pub fn ref_verify(pk: &PubM, blob: &[u8], msg: &[u8]) -> bool {
    ref_verify_(pk, blob, msg).unwrap_or(false)
}
fn rd(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let n = u32::from_be_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize;
    Some((b.get(o + 4..)?.get(..n)?.to_vec(), o + 4 + n))
}
fn rd_mp(b: &[u8], o: usize) -> Option<(Vec<u8>, usize)> {
    let (v, o) = rd(b, o)?;
    if v.is_empty() {
        return Some((v, o));
    }
    if v[0] >= 128 || (v[0] == 0 && (v.len() == 1 || v[1] < 128)) {
        return None;
    }
    Some((if v[0] == 0 { v[1..].to_vec() } else { v }, o))
}
fn ref_verify_(pk: &PubM, blob: &[u8], msg: &[u8]) -> Option<bool> {
    use ring::signature as rs;
    let (name, o) = rd(blob, 0)?;
    let name = String::from_utf8(name).ok()?;
    let (body, o) = rd(blob, o)?;
    let m = if is_sk(&pk.kt) {
        let fl = *blob.get(o)?;
        let c = u32::from_be_bytes(blob.get(o + 1..o + 5)?.try_into().ok()?);
        sk_msg(pk.p.last()?, fl, c, msg)
    } else {
        msg.to_vec()
    };
    Some(match fam(&pk.kt) {
        "rsa" => {
            let v: &rs::RsaParameters = match name.as_str() {
                "rsa-sha2-512" => &rs::RSA_PKCS1_2048_8192_SHA512,
                "rsa-sha2-256" => &rs::RSA_PKCS1_2048_8192_SHA256,
                "ssh-rsa" => &rs::RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY,
                _ => return None,
            };
            rs::RsaPublicKeyComponents { n: &pk.p[1], e: &pk.p[0] }.verify(v, &m, &body).is_ok()
        }
        "ed" => {
            if name != "ssh-ed25519" && name != "sk-ssh-ed25519@openssh.com" {
                return None;
            }
            rs::UnparsedPublicKey::new(&rs::ED25519, &pk.p[0]).verify(&m, &body).is_ok()
        }
        _ => {
            let (n, v): (usize, &'static dyn rs::VerificationAlgorithm) = match name.as_str() {
                "ecdsa-sha2-nistp256" | "sk-ecdsa-sha2-nistp256@openssh.com" => (32, &rs::ECDSA_P256_SHA256_FIXED),
                "ecdsa-sha2-nistp384" => (48, &rs::ECDSA_P384_SHA384_FIXED),
                _ => return None,
            };
            let (a, o) = rd_mp(&body, 0)?;
            let (b, _) = rd_mp(&body, o)?;
            if a.len() > n || b.len() > n {
                return None;
            }
            rs::UnparsedPublicKey::new(v, &pk.p[1]).verify(&m, &[pad(&a, n), pad(&b, n)].concat()).is_ok()
        }
    })
}

pub fn namespace(r: &mut Rng, d: &Dict) -> String {
    match r.n(5) {
        0 => "file".into(),
        1 => "git".into(),
        2 => {
            let t = r.text(d, 100);
            if t.is_empty() {
                "n".into()
            } else {
                t
            }
        }
        _ => r.word(),
    }
}
fn near_ns(r: &mut Rng, d: &Dict, ns: &str) -> String {
    let c: Vec<char> = ns.chars().collect();
    match r.n(10) {
        0 => String::new(),
        1 => format!("{ns} "),
        2 => format!(" {ns}"),
        3 => format!("{ns}\0"),
        4 => ns.to_uppercase(),
        5 => c[..c.len() - 1].iter().collect(),
        6 => format!("{ns}x"),
        7 => c[1..].iter().collect(),
        8 => "file".into(),
        _ => namespace(r, d),
    }
}
fn msg(r: &mut Rng, d: &Dict) -> Vec<u8> {
    if r.big && r.chance(15) {
        let n = match r.n(3) {
            0 => d.int(r).min(300_000) as usize + r.n(3),
            1 => (1usize << r.range(10, 18)) + r.n(3) - 1,
            _ => r.n(140_000),
        };
        let b = r.byte();
        let mut v = vec![b; n];
        if n > 0 {
            let i = r.n(n);
            v[i] ^= 1;
        }
        return v;
    }
    if r.chance(3) {
        let n = r.n(6000);
        r.bytes(n)
    } else {
        message(r, d)
    }
}
fn with_comment(r: &mut Rng, d: &Dict, p: &PubM) -> PublicKey {
    let mut k = p.ssh();
    if r.chance(50) {
        k.comment = Some(r.text(d, 30));
    }
    k
}
/// C05
pub fn c05(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let a = app(r, d);
    let k = Signer::any(r, &a);
    let m = msg(r, d);
    let ns = namespace(r, d);
    let ha = *r.pick(&["sha256", "sha512"]);
    let g = detached(&mut s, r, &k, &m, &ns, ha);
    s.xt(&g.text());
    let n = r.range(3, 8);
    for _ in 0..n {
        let mut f = g.clone();
        match r.n(18) {
            0 | 1 => {
                // genuine
                let pk = if r.chance(60) { Some(with_comment(r, d, &k.pk)) } else { None };
                let ok = s.sig_verify(&f.text(), &m, &ns, pk.as_ref());
                s.expect(ok);
            }
            2 | 3 => {
                // other message
                let m2 = match r.n(5) {
                    0 => [m.clone(), vec![0]].concat(),
                    1 => [m.clone(), b"\n".to_vec()].concat(),
                    2 => m[..m.len() / 2].to_vec(),
                    3 => sha(ha, &m),
                    _ => damage(r, d, &m),
                };
                let ok = s.sig_verify(&f.text(), &m2, &ns, None);
                s.expect(ok == (m2 == m));
            }
            4 | 5 => {
                // other namespace asked for
                let n2 = near_ns(r, d, &ns);
                let ok = s.sig_verify(&f.text(), &m, &n2, None);
                s.expect(ok == (n2 == ns));
            }
            6 => {
                // other namespace claimed
                let n2 = near_ns(r, d, &ns);
                f.ns = n2.clone();
                let ask = if r.chance(60) { n2.clone() } else { ns.clone() };
                let ok = s.sig_verify(&f.text(), &m, &ask, None);
                s.expect(ok == (n2 == ns && ask == ns));
            }
            7 | 8 => {
                // other expected key
                let o = match r.n(4) {
                    0 => {
                        let mut o = k.pk.clone();
                        let j = o.p.len() - 1;
                        if is_sk(&o.kt) {
                            o.p[j].push(b'x');
                        } else if fam(&o.kt) == "rsa" {
                            o.p[0] = vec![3];
                        } else {
                            o.p[j] = damage(r, d, &o.p[j]);
                        }
                        o
                    }
                    1 if k.pk.kt == "ssh-ed25519" => PubM { kt: "sk-ssh-ed25519@openssh.com".into(), p: vec![k.pk.p[0].clone(), b"ssh:".to_vec()] },
                    1 if k.pk.kt == "sk-ssh-ed25519@openssh.com" => PubM { kt: "ssh-ed25519".into(), p: vec![k.pk.p[0].clone()] },
                    1 if k.pk.kt == "sk-ecdsa-sha2-nistp256@openssh.com" => PubM { kt: "ecdsa-sha2-nistp256".into(), p: k.pk.p[..2].to_vec() },
                    2 => {
                        let a2 = app(r, d);
                        let mut o = Signer::any(r, &a2);
                        for _ in 0..30 {
                            if o.pk.kt == k.pk.kt {
                                break;
                            }
                            o = Signer::any(r, &a2);
                        }
                        o.pk
                    }
                    _ => any_pub(r, d),
                };
                if o.kt.starts_with("rsa-") {
                    continue;
                }
                let e = with_comment(r, d, &o);
                let ok = s.sig_verify(&f.text(), &m, &ns, Some(&e));
                s.expect(ok == (o == k.pk));
            }
            9 => {
                // hash name
                f.ha = match r.n(8) {
                    0 => "sha1".into(),
                    1 => "sha384".into(),
                    2 => ha.to_uppercase(),
                    3 => String::new(),
                    4 => format!("{ha} "),
                    5 => r.text(d, 20),
                    _ => (if ha == "sha256" { "sha512" } else { "sha256" }).into(),
                };
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(ok == (f.ha == ha));
            }
            10 => {
                f.ver = match r.n(4) {
                    0 => 0,
                    1 => 2,
                    2 => 0x0100_0000,
                    _ => r.u32_pool(d),
                };
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(ok == (f.ver == 1));
            }
            11 => {
                f.magic = match r.n(4) {
                    0 => b"SSHSIH".to_vec(),
                    1 => b"sshsig".to_vec(),
                    2 => vec![],
                    _ => damage(r, d, &f.magic),
                };
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                if f.magic.len() == 6 {
                    s.expect(ok == (f.magic == b"SSHSIG"));
                }
            }
            12 => {
                // reserved data is ignored on reading, and never signed
                f.rsv = r.text(d, 30).into_bytes();
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(ok);
                if !f.rsv.is_empty() {
                    let data = signed_data(&ns, &f.rsv, ha, &sha(ha, &m));
                    f.sig = s.sign(r, &k, &data);
                    let ok = s.sig_verify(&f.text(), &m, &ns, None);
                    s.expect(!ok);
                }
            }
            13 => {
                // the key holder signed something else
                let other = if ha == "sha256" { "sha512" } else { "sha256" };
                let data = match r.n(8) {
                    0 => m.clone(),
                    1 => sha(ha, &m),
                    2 => signed_data(&ns, b"", ha, &m),
                    3 => signed_data(&ns, b"", ha, &sha(other, &m)),
                    4 => signed_data(&ns, b"", other, &sha(ha, &m)),
                    5 => signed_data(&ns, b"", ha, &sha(ha, &m))[6..].to_vec(),
                    6 => [b"SSHSIG\0\0\0\x01".to_vec(), signed_data(&ns, b"", ha, &sha(ha, &m))[6..].to_vec()].concat(),
                    _ => signed_data("", b"", ha, &sha(ha, &m)),
                };
                f.sig = s.sign(r, &k, &data);
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(!ok);
            }
            14 => {
                // a genuine signature for something else, transplanted
                let (mut m2, mut n2, mut h2) = (m.clone(), ns.clone(), ha);
                match r.n(3) {
                    0 => m2.push(1),
                    1 => n2.push('x'),
                    _ => h2 = if ha == "sha256" { "sha512" } else { "sha256" },
                }
                let o = detached(&mut s, r, &k, &m2, &n2, h2);
                f.sig = o.sig.clone();
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(!ok);
                if r.chance(50) {
                    let ok = s.sig_verify(&o.text(), &m2, &n2, None);
                    s.expect(ok);
                }
            }
            15 => {
                // another key claimed
                let a2 = app(r, d);
                let o = Signer::any(r, &a2);
                if r.chance(40) {
                    let w = weird_pub(r, d, &k.pk);
                    f.key = w.enc();
                    if r.chance(30) {
                        f.sig = junk_sig(r, d, &w.kt);
                    }
                    let e = crate::p_pub::ref_pub(&f.key).filter(|_| r.chance(50)).map(|p| p.ssh());
                    s.sig_verify(&f.text(), &m, &ns, e.as_ref());
                    continue;
                }
                f.key = o.pk.enc();
                let e = if r.chance(30) { Some(k.pk.ssh()) } else { None };
                let ok = s.sig_verify(&f.text(), &m, &ns, e.as_ref());
                s.expect(ok == (o.pk == k.pk));
            }
            16 => {
                // signature bytes
                f.sig = damage(r, d, &f.sig);
                let want = ref_verify(&k.pk, &f.sig, &signed_data(&ns, b"", ha, &sha(ha, &m)));
                let ok = s.sig_verify(&f.text(), &m, &ns, None);
                s.expect(ok == want);
            }
            _ => {
                // the armor or the blob
                let b = if r.chance(50) { damage(r, d, &f.bytes()) } else { f.bytes() };
                let nl = *r.pick(&["\n", "\r\n", "\n\n", " \n"]);
                let wd = *r.pick(&[76usize, 70, 64, 100000]);
                let (bg, en) = match r.n(8) {
                    0 => ("-----BEGIN SSH SIGNATURE-----x", SE),
                    1 => (SB, "-----END SSH SIGNATURE----"),
                    2 => ("-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----"),
                    3 => ("", SE),
                    _ => (SB, SE),
                };
                let mut t = armor(&b, bg, en, wd, nl);
                match r.n(5) {
                    0 => t.push_str("\nxyz"),
                    1 => t = format!("\n{t}"),
                    2 => t = t.replace('=', ""),
                    _ => {}
                }
                if r.chance(30) {
                    s.sig_parse(&t);
                }
                let ok = s.sig_verify(&t, &m, &ns, None);
                if (bg, en) != (SB, SE) {
                    s.expect(!ok);
                }
            }
        }
    }
    s
}

/// C06
pub fn c06(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let k = any_priv(r, d);
    let sk = is_sk(&k.pk.kt);
    let mut mdl = model(&k, r.u64() as u32, "c", r, d);
    let mut use_ = if !sk && k.usable() { "yes" } else { "no" };
    if use_ == "yes" && r.chance(8) && fam(&k.pk.kt) != "rsa" {
        // a secret that belongs to another key
        mdl.sec[0] = damage(r, d, &mdl.sec[0]);
        use_ = "any";
    }
    let t = FileM::plain(&mdl).text();
    let Ok(mut p) = PrivateKey::from_string(&t) else {
        s.push("crash", &[]);
        s.expect(false);
        return s;
    };
    if r.chance(20) {
        p.pubkey.comment = Some(r.text(d, 20));
    }
    let n = r.range(1, 4);
    for _ in 0..n {
        let m = msg(r, d);
        let ns = if r.chance(8) { String::new() } else { namespace(r, d) };
        let (ha, hn) = match r.n(3) {
            0 => (None, "sha512"),
            1 => (Some(HashAlgorithm::Sha256), "sha256"),
            _ => (Some(HashAlgorithm::Sha512), "sha512"),
        };
        let v = s.sig_new(&p, &ns, ha, &m, use_);
        let want = use_ == "yes" && !ns.is_empty();
        s.expect(v.is_some() == want || (use_ == "any" && !ns.is_empty()));
        let Some(v) = v else { continue };
        let o = &v.signature;
        s.expect(pub_m(&o.pubkey) == k.pk && o.namespace == ns && ha_name(&o.hash_algorithm) == hn && v.message == m);
        s.expect(ref_verify(&k.pk, &o.signature, &signed_data(&ns, b"", hn, &sha(hn, &m))));
        let exp = SigM { magic: b"SSHSIG".to_vec(), ver: 1, key: k.pk.enc(), ns: ns.clone(), rsv: vec![], ha: hn.into(), sig: o.signature.clone() };
        let text = format!("{v}");
        s.expect(text == exp.text() && text == format!("{o}"));
        if r.chance(70) {
            let back = s.sig_parse(&text);
            s.expect(back.map(|b| pub_m(&b.pubkey) == k.pk && b.namespace == ns && b.signature == exp.sig && ha_name(&b.hash_algorithm) == hn).unwrap_or(false));
        }
        if r.chance(60) {
            let e = if r.chance(50) { Some(k.pk.ssh()) } else { None };
            let ok = s.sig_verify(&text, &m, &ns, e.as_ref());
            s.expect(ok);
        }
        if r.chance(30) {
            let m2 = damage(r, d, &m);
            let ok = s.sig_verify(&text, &m2, &ns, None);
            s.expect(ok == (m2 == m));
        }
    }
    s
}

/// a signature blob made in some unusual way for the signed bytes `data`
fn craft(s: &mut Sess, r: &mut Rng, d: &Dict, k: &Signer, data: &[u8]) -> Vec<u8> {
    let sk = is_sk(&k.pk.kt);
    let f = fam(&k.pk.kt);
    let flags = r.byte_pool(d);
    let ctr = r.u32_pool(d);
    let ap: Vec<u8> = if sk { k.pk.p.last().unwrap().clone() } else { b"ssh:".to_vec() };
    s.hash("sha256", &ap);
    s.hash("sha256", data);
    // which bytes are signed
    let right = if sk { sk_msg(&ap, flags, ctr, data) } else { data.to_vec() };
    let m = match r.n(10) {
        0 if sk => data.to_vec(),
        0 => sk_msg(&ap, flags, ctr, data),
        1 if sk => sk_msg(&[ap.clone(), b"x".to_vec()].concat(), flags, ctr, data),
        2 if sk => sk_msg(&ap, flags ^ (1 << r.n(8)), ctr, data),
        3 if sk => sk_msg(&ap, flags, ctr ^ (1 << r.n(32)), data),
        4 if sk => {
            // counter in the other byte order, or message not hashed
            let mut v = sha("sha256", &ap);
            v.push(flags);
            if r.chance(50) {
                v.extend(ctr.to_le_bytes());
                v.extend(sha("sha256", data));
            } else {
                v.extend(ctr.to_be_bytes());
                v.extend(data);
            }
            v
        }
        _ => right,
    };
    // which scheme the holder uses, and which one is named
    let own = *r.pick(&k.schemes());
    let raw = if f == "rsa" && r.chance(8) {
        let Sk::Rsa(x) = &k.sk else { unreachable!() };
        rsa_sign(x, "sha384", &m)
    } else {
        let x = k.raw(own, &m);
        if k.usable() {
            s.fact(&x);
        }
        x.sig
    };
    let name = match r.n(10) {
        0..=4 => own.to_string(),
        5 => (*r.pick(&["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"])).to_string(),
        6 => k.pk.kt.clone(),
        7 => cert_name(&k.pk.kt),
        8 => r.text(d, 40),
        _ => (*r.pick(&ALL_TYPES)).to_string(),
    };
    let mut body = if f == "ecdsa" {
        let n = raw.len() / 2;
        let (a, b) = (&raw[..n], &raw[n..]);
        match r.n(12) {
            0 => W::new().b(a).b(b).0,
            1 => W::new().mp(b).mp(a).0,
            2 => W::new().b(&[vec![0], a.to_vec()].concat()).mp(b).0,
            3 => W::new().mp(a).b(&[vec![0], b.to_vec()].concat()).0,
            4 => W::new().b(&[vec![0, 0], a.to_vec()].concat()).mp(b).0,
            5 => W::new().mp(a).0,
            6 => raw.clone(),
            7 => W::new().mp(a).mp(b).raw(&r.bytes(3)).0,
            8 => W::new().mp(&[vec![1], a.to_vec()].concat()).mp(b).0,
            _ => ecdsa_body(&raw),
        }
    } else {
        match r.n(8) {
            0 => raw[1..].to_vec(),
            1 => [vec![0], raw.clone()].concat(),
            2 => [raw.clone(), vec![0]].concat(),
            3 => raw[..raw.len() - 1].to_vec(),
            4 => W::new().b(&raw).0,
            _ => raw.clone(),
        }
    };
    if r.chance(8) {
        body = damage(r, d, &body);
    }
    let mut w = W::new().s(&name).b(&body);
    let tail = match r.n(8) {
        0 => vec![],
        1 => vec![flags],
        2 => vec![flags, 0, 0, 0],
        3 => W::new().raw(&[flags]).u32(ctr).raw(&[1, 2]).0,
        4 => W::new().raw(&[flags ^ (1 << r.n(8))]).u32(ctr).0,
        5 => W::new().raw(&[flags]).u32(ctr ^ (1 << r.n(32))).0,
        _ => W::new().raw(&[flags]).u32(ctr).0,
    };
    if sk || r.chance(20) {
        w = w.raw(&tail);
    }
    w.0
}
/// signatures whose numbers have leading zero bytes, and the keys they are valid for
fn shaped(s: &mut Sess, r: &mut Rng, d: &Dict) {
    let m = r.text(d, 60).into_bytes();
    let ns = namespace(r, d);
    let ha = *r.pick(&["sha256", "sha512"]);
    let data = signed_data(&ns, b"", ha, &sha(ha, &m));
    let sk = r.chance(30);
    let c = crate::ecx::curve(if sk || r.chance(50) { "nistp256" } else { "nistp384" });
    let zeros = |r: &mut Rng| match r.n(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.range(3, 8),
        4 => r.n(c.len - 1),
        _ => c.len - 1,
    };
    let (zr, zs) = match r.n(3) {
        0 => (zeros(r), 0),
        1 => (0, zeros(r)),
        _ => (zeros(r), zeros(r)),
    };
    let a = app(r, d);
    let (fl, ctr) = (r.byte_pool(d), r.u32_pool(d));
    let signed = if sk {
        s.hash("sha256", a.as_bytes());
        s.hash("sha256", &data);
        sk_msg(a.as_bytes(), fl, ctr, &data)
    } else {
        data.clone()
    };
    let (q, sig) = c.made_to_order(r, &sha(c.hash, &signed), zr, zs);
    let kt = if sk { "sk-ecdsa-sha2-nistp256@openssh.com".to_string() } else { format!("ecdsa-sha2-{}", c.name) };
    let mut pk = PubM { kt: kt.clone(), p: vec![c.name.as_bytes().to_vec(), q.clone()] };
    if sk {
        pk.p.push(a.into_bytes());
    }
    s.fact(&Raw { alg: if c.len == 32 { "p256" } else { "p384" }, key: vec![q], msg: signed, sig: sig.clone() });
    let (x, y) = (&sig[..c.len], &sig[c.len..]);
    for i in 0..r.range(1, 3) {
        let body = match r.n(8) {
            _ if i == 0 => ecdsa_body(&sig),
            0 => W::new().b(x).b(y).0,
            1 => W::new().mp(y).mp(x).0,
            2 => W::new().b(&[vec![0], x.to_vec()].concat()).mp(y).0,
            3 => damage(r, d, &ecdsa_body(&sig)),
            _ => ecdsa_body(&sig),
        };
        let mut w = W::new().s(&kt).b(&body);
        if sk {
            w = w.raw(&[fl]).u32(ctr);
        }
        let want = ref_verify(&pk, &w.0, &data);
        s.expect(i > 0 || want);
        let f = SigM { magic: b"SSHSIG".to_vec(), ver: 1, key: pk.enc(), ns: ns.clone(), rsv: vec![], ha: ha.into(), sig: w.0 };
        let ok = s.sig_verify(&f.text(), &m, &ns, None);
        s.expect(ok == want);
    }
}
/// C07
pub fn c07(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    if r.chance(3) {
        shaped(&mut s, r, d);
        return s;
    }
    let a = app(r, d);
    let k = match r.n(14) {
        0 => Signer::rsa_of(r.pick(&fx().rsa)),
        1..=3 => Signer::ec_sk(r, &a),
        4..=6 => Signer::ed_sk(r, &a),
        _ => Signer::any(r, &a),
    };
    let n = r.range(2, 6);
    if r.chance(50) {
        // in a certificate
        let m = cert(r, d, &k.pk);
        let (tbs, _) = m.tbs();
        s.x(&tbs);
        for _ in 0..n {
            if r.chance(10) {
                let mut m2 = m.clone();
                m2.ca = weird_pub(r, d, &k.pk);
                let (t2, _) = m2.tbs();
                let sg = if r.chance(50) { s.sign(r, &k, &t2) } else { junk_sig(r, d, &m2.ca.kt) };
                s.cert_bytes(&[t2, sb(&sg)].concat());
                continue;
            }
            let sg = if r.chance(20) { s.sign(r, &k, &tbs) } else { craft(&mut s, r, d, &k, &tbs) };
            let want = ref_verify(&k.pk, &sg, &tbs);
            let c = s.cert_bytes(&[tbs.clone(), sb(&sg)].concat());
            s.expect(c.is_some() == want);
        }
        if r.chance(20) && k.usable() {
            let i = issue_m(&mut s, r, m, k);
            let c = s.cert_bytes(&i.b);
            s.expect(c.is_some());
        }
    } else {
        let m = r.text(d, 60).into_bytes();
        let ns = namespace(r, d);
        let ha = *r.pick(&["sha256", "sha512"]);
        let data = signed_data(&ns, b"", ha, &sha(ha, &m));
        for _ in 0..n {
            let sg = if r.chance(8) { junk_sig(r, d, &k.pk.kt) } else if r.chance(20) { s.sign(r, &k, &data) } else { craft(&mut s, r, d, &k, &data) };
            let want = ref_verify(&k.pk, &sg, &data);
            let f = SigM { magic: b"SSHSIG".to_vec(), ver: 1, key: k.pk.enc(), ns: ns.clone(), rsv: vec![], ha: ha.into(), sig: sg };
            let ok = s.sig_verify(&f.text(), &m, &ns, None);
            s.expect(ok == want);
        }
    }
    s
}
