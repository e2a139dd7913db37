//! C30: a refusal names what is wrong with the input.
use crate::api::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::rng::Rng;
use crate::scen::{bytes, st};
use crate::wire::*;
use serde_json::Value;
use sshcerts::ssh::{AllowedSigners, KeyTypeKind};
use sshcerts::{Certificate, PrivateKey, PublicKey};

/// a file that is not there or is not text
fn missing(s: &mut Sess, r: &mut Rng) {
    let what = r.n(4);
    let open = |p: &std::path::Path| match what {
        0 => Certificate::from_path(p).map(|_| ()),
        1 => PublicKey::from_path(p).map(|_| ()),
        2 => PrivateKey::from_path(p).map(|_| ()),
        _ => AllowedSigners::from_path(p).map(|_| ()),
    };
    s.calls += 1;
    let o = match r.n(3) {
        0 => call("missing", b"", || open(std::path::Path::new(&format!("{}/no/such", SCRATCH.get().unwrap())))),
        1 => call("missing", b"", || open(std::path::Path::new(SCRATCH.get().unwrap()))),
        _ => with_file(&[b's', b's', b'h', 0xff, 0xfe, b' ', b'A'], |p| call("missing", b"", || open(p))),
    };
    s.push("missing", &[("what", what.to_string()), ("st", o.st())]);
    s.expect(o.is_err());
}
fn gen(s: &mut Sess, r: &mut Rng, d: &Dict) {
    let (n, k) = match r.n(6) {
        0 => ("Rsa", KeyTypeKind::Rsa),
        1 => ("Ed25519", KeyTypeKind::Ed25519),
        2 => ("Ecdsa", KeyTypeKind::Ecdsa),
        3 => ("RsaCert", KeyTypeKind::RsaCert),
        4 => ("Ed25519Cert", KeyTypeKind::Ed25519Cert),
        _ => ("EcdsaCert", KeyTypeKind::EcdsaCert),
    };
    let cm = r.text(d, 20);
    s.calls += 1;
    let o = call("gen", n.as_bytes(), || PrivateKey::new(k, &cm));
    s.push("gen", &[("kind", q(n)), ("st", o.st())]);
    s.expect(o.is_ok() == (n == "Ed25519"));
}
/// every error with some value: messages are told apart and show the value
fn errors(s: &mut Sess, r: &mut Rng, d: &Dict) {
    use sshcerts::error::Error as E;
    use sshcerts::ssh::AllowedSignerParsingError as A;
    use sshcerts::fido::Error as T;
    let v = format!("v{}", r.text(d, 12));
    let n = r.u32_pool(d);
    let subs = || {
        vec![
            A::InvalidQuotes,
            A::MissingPrincipals,
            A::InvalidPrincipals,
            A::MissingKey,
            A::DuplicateOptions(v.clone()),
            A::InvalidOption(v.clone()),
            A::InvalidKey,
            A::InvalidTimestamp,
            A::InvalidTimestamps,
            A::UnexpectedEnd,
        ]
    };
    let args = |a: &A| if matches!(a, A::DuplicateOptions(_) | A::InvalidOption(_)) { vec![v.clone()] } else { vec![] };
    let mut all: Vec<(E, Vec<String>)> = vec![
        (E::InvalidCertType(n), vec![n.to_string()]),
        (E::InvalidFormat, vec![]),
        (E::UnexpectedEof, vec![]),
        (E::NotCertificate, vec![]),
        (E::KeyTypeMismatch, vec![]),
        (E::InvalidSignature, vec![]),
        (E::SigningError, vec![]),
        (E::EncryptedPrivateKey, vec![]),
        (E::EncryptedPrivateKeyNotSupported, vec![]),
        (E::UnknownKeyType(v.clone()), vec![v.clone()]),
        (E::UnknownCurve(v.clone()), vec![v.clone()]),
        (E::ParsingError, vec![]),
        (E::Unsupported, vec![]),
        (E::Io(std::io::Error::new(std::io::ErrorKind::Other, v.clone())), vec![v.clone()]),
    ];
    for a in subs() {
        let x = args(&a);
        all.push((E::InvalidAllowedSigner(a), x));
    }
    let l = n as usize;
    for a in subs() {
        let mut x = args(&a);
        x.push(l.to_string());
        all.push((E::InvalidAllowedSigners(a, l), x));
    }
    let (t, c, u) = (n as u8, format!("c{v}"), format!("u{v}"));
    for (e, x) in [
        (T::InvalidPin(Some(t)), vec![t.to_string()]),
        (T::InvalidPin(None), vec![]),
        (T::PinRequired, vec![]),
        (T::KeyLocked, vec![]),
        (T::KeyBlocked, vec![]),
        (T::CborFormat(c.clone()), vec![c]),
        (T::Unknown(u.clone()), vec![u]),
    ] {
        all.push((E::FidoError(e), x));
    }
    s.calls += all.len();
    let o = callv("errors", v.as_bytes(), || all.iter().map(|e| (e.0.to_string(), &e.1)).collect::<Vec<_>>());
    let st = o.st();
    let ms = o.ok().unwrap_or_default();
    let ok = ms.iter().enumerate().all(|(i, x)| x.1.iter().all(|a| x.0.contains(a)) && ms[..i].iter().all(|y| y.0 != x.0) && !x.0.is_empty());
    let j: Vec<String> = ms.iter().map(|x| format!("{{\"m\":{},\"a\":{}}}", arr(x.0.as_bytes()), arrs(x.1))).collect();
    s.push("errors", &[("st", st), ("out", format!("[{}]", j.join(",")))]);
    s.expect(ok && !ms.is_empty());
}
pub fn c30(r: &mut Rng, d: &Dict) -> Sess {
    match r.n(16) {
        0 | 1 => crate::p_cert::c01(r, d),
        2 => crate::p_cert::c02(r, d),
        3 | 4 => crate::p_build::c04(r, d),
        5 => crate::p_sig::c05(r, d),
        6 => crate::p_sig::c06(r, d),
        7 => crate::p_sig::c07(r, d),
        8 => crate::p_pub::c08(r, d),
        9 => crate::p_priv::c09(r, d),
        10 => crate::p_priv::c10(r, d),
        11 | 12 => crate::p_allow::c12(r, d),
        13 => crate::p_allow::c13(r, d),
        14 => crate::p_wire::c24(r, d),
        _ => {
            let mut s = Sess::new();
            for _ in 0..1 + r.n(4) {
                match r.n(5) {
                    0 | 1 => missing(&mut s, r),
                    2 | 3 => gen(&mut s, r, d),
                    _ => errors(&mut s, r, d),
                }
            }
            s
        }
    }
}

fn subst(b: &[u8], pk: &[u8], sig: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    for i in 0..o.len() {
        if o.len() >= i + 32 && o[i..i + 32].iter().all(|x| *x == 9) {
            o[i..i + 32].copy_from_slice(pk);
        }
        if !sig.is_empty() && o.len() >= i + 64 && o[i..i + 64].iter().filter(|x| **x == 7).count() >= 63 && (7..=8).contains(&o[i]) {
            for j in 0..64 {
                o[i + j] = sig[j] ^ (o[i + j] ^ 7);
            }
            break;
        }
    }
    o
}
fn words(w: &str, kt: &str, b: &[u8]) -> String {
    let t = b64(b);
    match w {
        "none" => format!("{kt} {t}"),
        "label unknown" => format!("ssh-dsa {t}"),
        "label other" => format!("{} {t}", if kt == "ssh-rsa" { "ssh-ed25519" } else { "ssh-rsa" }),
        "b64" => format!("{kt} ?{t}"),
        "one word" => kt.into(),
        _ => String::new(),
    }
}
fn armored(w: &str, b: &[u8], what: &str) -> String {
    let (x, y) = (format!("-----BEGIN {what}-----"), format!("-----END {what}-----"));
    let mut ok = armor(b, &x, &y, 70, "\n");
    while ok.ends_with('\n') {
        ok.pop();
    }
    match w {
        "begin" => format!("-{ok}"),
        "end" => {
            ok.pop();
            ok
        }
        "b64" => format!("{x}\n?\n{y}"),
        _ => ok,
    }
}
/// a scenario of MC_Why: the artifact with its faults, the causes allowed
pub fn replay(v: &Value, r: &mut Rng) -> Sess {
    let mut s = Sess::new();
    let (op, w) = (st(&v["op"]), st(&v["w"]));
    let parts: Vec<Vec<u8>> = v["parts"].as_array().unwrap().iter().map(bytes).collect();
    let k = Signer::ed(r);
    let pk = &k.pk.p[0];
    let tail = |x: Vec<u8>| x[x.len() - 64..].to_vec();
    let mut seen = vec![];
    match op {
        "pub_blob" | "pub_line" => {
            let b = subst(&parts.concat(), pk, &[]);
            if op == "pub_blob" {
                s.pub_blob(&b);
            } else {
                // the label the model wrote, around the body with the real key
                let x = String::from_utf8(bytes(&v["x"])).unwrap();
                let kt = x.split(' ').next().unwrap();
                let t = match w {
                    "label unknown" | "label other" | "none" | "b64" => words(if w == "b64" { "b64" } else { "none" }, kt, &b),
                    _ => x.clone(),
                };
                s.pub_line(&t, r.chance(3));
            }
        }
        "cert_bytes" | "cert_text" => {
            let tbs = subst(&parts[..13].concat(), pk, &[]);
            s.x(&tbs);
            let sig = tail(s.sign(r, &k, &tbs));
            let b = [tbs, subst(&parts[13], pk, &sig)].concat();
            if op == "cert_bytes" {
                s.cert_bytes(&b);
            } else {
                s.cert_text(&words(w, "ssh-ed25519-cert-v01@openssh.com", &b), r.chance(3), None);
            }
        }
        "sig_parse" | "sig_verify" => {
            let msg = b"what is signed".to_vec();
            let h = s.hash("sha512", &msg);
            let sig = tail(s.sign(r, &k, &crate::p_sig::signed_data("file", b"", "sha512", &h)));
            s.hash("sha256", &msg);
            let b = subst(&parts.concat(), pk, &sig);
            let t = armored(w, &b, "SSH SIGNATURE");
            if op == "sig_parse" {
                s.sig_parse(&t);
            } else {
                s.sig_verify(&t, &msg, "file", None);
            }
        }
        "priv_bytes" => {
            s.priv_bytes(&parts.concat());
        }
        "priv_parse" => {
            let body = parts[7..].concat();
            let len = if parts[6].is_empty() { (body.len() as u32).to_be_bytes().to_vec() } else { parts[6].clone() };
            let b = [parts[..6].concat(), len, body].concat();
            s.priv_parse(&armored(w, &b, "OPENSSH PRIVATE KEY"), None, r.chance(3));
        }
        _ => {
            let t = String::from_utf8(parts.concat()).unwrap();
            crate::p_allow::as_line(&mut s, &t, &mut seen);
        }
    }
    let named = v["why"].as_array().unwrap().iter().map(|c| (st(&c[0]).to_string(), bytes(&c[1]))).collect::<Vec<_>>();
    let ok = match s.told.take() {
        None => named.is_empty(),
        Some(t) => named.contains(&t),
    };
    s.expect(ok);
    crate::p_allow::zone_for(&mut s, &seen);
    s
}
