//! C17, C23, C25 and C26: crashes, secrets in memory, freshness, history.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::p_priv::*;
use crate::rng::Rng;
use crate::watch;
use crate::wire::*;
use sshcerts::ssh::*;

// ---------------- C23 ----------------
/// the secret components, the PIN last
fn secrets(k: &PrivateKey) -> (bool, Vec<Vec<u8>>) {
    let o = |x: &Option<Vec<u8>>| x.clone().unwrap_or_default();
    let p = |x: &Option<String>| x.clone().unwrap_or_default().into_bytes();
    match &k.kind {
        PrivateKeyKind::Rsa(x) => (false, vec![x.d.clone(), x.coefficient.clone(), x.p.clone(), x.q.clone(), o(&x.exp), o(&x.exq)]),
        PrivateKeyKind::Ecdsa(x) => (false, vec![x.key.clone()]),
        PrivateKeyKind::Ed25519(x) => (false, vec![x.key.clone()]),
        PrivateKeyKind::EcdsaSk(x) => (true, vec![x.handle.clone(), p(&x.pin)]),
        PrivateKeyKind::Ed25519Sk(x) => (true, vec![x.handle.clone(), p(&x.pin)]),
    }
}
fn places(k: &PrivateKey) -> Vec<(usize, usize)> {
    let v = |x: &Vec<u8>| (if x.is_empty() { 0 } else { x.as_ptr() as usize }, x.len());
    let o = |x: &Option<Vec<u8>>| x.as_ref().map(|x| v(x)).unwrap_or((0, 0));
    let p = |x: &Option<String>| x.as_ref().map(|x| (if x.is_empty() { 0 } else { x.as_ptr() as usize }, x.len())).unwrap_or((0, 0));
    match &k.kind {
        PrivateKeyKind::Rsa(x) => vec![v(&x.d), v(&x.coefficient), v(&x.p), v(&x.q), o(&x.exp), o(&x.exq)],
        PrivateKeyKind::Ecdsa(x) => vec![v(&x.key)],
        PrivateKeyKind::Ed25519(x) => vec![v(&x.key)],
        PrivateKeyKind::EcdsaSk(x) => vec![v(&x.handle), p(&x.pin)],
        PrivateKeyKind::Ed25519Sk(x) => vec![v(&x.handle), p(&x.pin)],
    }
}
fn rel_j(v: &[Vec<Vec<u8>>]) -> String {
    format!("[{}]", v.iter().map(|x| arrs(x)).collect::<Vec<_>>().join(","))
}
fn end_of(s: &mut Sess, h: usize, k: PrivateKey, how: usize, r: &mut Rng) {
    s.calls += 1;
    let pl = places(&k);
    let (_, sec) = secrets(&k);
    let (_, rel) = match how {
        0 | 1 => watch::during(&pl, || drop(k)),
        2 => std::thread::spawn(move || watch::during(&pl, move || drop(k))).join().unwrap(),
        3 => {
            // unwinding
            watch::during(&pl, || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _k = k;
                    std::panic::resume_unwind(Box::new(()));
                }));
            })
        }
        4 => {
            let mut v = vec![k];
            watch::during(&pl, || v.clear())
        }
        5 => {
            let b: Box<dyn std::any::Any> = Box::new(k);
            watch::during(&pl, || drop(b))
        }
        6 => {
            let a = std::sync::Arc::new(std::sync::Mutex::new(Some(k)));
            let b = a.clone();
            drop(a);
            watch::during(&pl, || drop(b.lock().unwrap().take()))
        }
        7 => {
            // another key takes its place
            let mut x = k;
            let n = PrivateKey::new(KeyTypeKind::Ed25519, "").unwrap();
            let y = watch::during(&pl, || x = n);
            let _ = &x;
            y
        }
        8 => {
            // consumed by signing
            let m = r.bytes(10);
            watch::during(&pl, || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| VerifiedSshSignature::new_with_private_key(&m, "file", k, None)));
            })
        }
        _ => {
            // after use
            let m = r.bytes(10);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _ = sshcerts::ssh::SSHCertificateSigner::sign(&k, &m);
                let _ = k.encode();
                let _ = format!("{k}");
            }));
            watch::during(&pl, || drop(k))
        }
    };
    s.push("gone", &[("h", h.to_string()), ("rel", rel_j(&rel))]);
    let ok = sec.iter().zip(&rel).all(|(a, b)| a.is_empty() || b.len() == 1 && b[0].iter().all(|x| *x == 0));
    s.expect(ok);
}
fn held(s: &mut Sess, k: PrivateKey) -> (usize, PrivateKey) {
    let h = s.h();
    let (hw, sec) = secrets(&k);
    s.push("hold", &[("h", h.to_string()), ("hw", hw.to_string()), ("sec", arrs(&sec))]);
    (h, k)
}
fn some_key(r: &mut Rng, d: &Dict) -> Option<PrivateKey> {
    let mut k = match r.n(10) {
        0 | 1 => PrivateKey::new(KeyTypeKind::Ed25519, "c").ok()?,
        n => {
            let g = any_priv(r, d);
            let mut m = model(&g, r.u64() as u32, "c", r, d);
            if is_sk(&g.pk.kt) {
                let n = r.range(1, 200);
                m.sec[1] = r.bytes(n).iter().map(|x| x | 1).collect();
            }
            match n {
                2 => PrivateKey::from_bytes(&m.inner()).ok()?,
                3 => {
                    let salt = r.bytes(16);
                    let ks = keystream("pw", &salt, 1, m.section(16).len())?;
                    PrivateKey::from_string_with_passphrase(&FileM::enc(&m, &salt, 1, &ks).text(), Some("pw".into())).ok()?
                }
                4 => with_file(FileM::plain(&m).text().as_bytes(), |p| PrivateKey::from_path(p)).ok()?,
                _ => PrivateKey::from_string(&FileM::plain(&m).text()).ok()?,
            }
        }
    };
    if let PrivateKeyKind::Rsa(x) = &mut k.kind {
        // the optional parts are the caller's to fill in
        if x.exp.is_none() && r.chance(50) {
            x.exp = Some(r.bytes(64).iter().map(|x| x | 1).collect());
            x.exq = Some(r.bytes(64).iter().map(|x| x | 1).collect());
        }
    }
    Some(k)
}
/// a new PIN for a key
fn pinned(s: &mut Sess, x: &mut (usize, PrivateKey), pin: &str, path: bool) -> bool {
    let before = secrets(&x.1);
    let pl = places(&x.1);
    let k = &mut x.1;
    let (_, rel) = watch::during(&pl, || {
        k.set_pin(pin);
        if path {
            k.set_device_path("/dev/hidraw-none");
        }
    });
    let (hw, sec) = secrets(&x.1);
    let old = rel.last().cloned().unwrap_or_default();
    s.push("pin", &[("h", x.0.to_string()), ("val", arr(pin.as_bytes())), ("sec", arrs(&sec)), ("rel", arrs(&old))]);
    if hw {
        sec[0] == before.1[0] && sec[1] == pin.as_bytes() && old.iter().all(|v| v.iter().all(|b| *b == 0))
    } else {
        sec == before.1
    }
}
/// one history of MC_Memory
pub fn history(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::scen::{int, st};
    let mut s = Sess::new();
    let mut all: Vec<Option<(usize, PrivateKey)>> = vec![];
    for e in v.as_array().unwrap() {
        let of = (int(&e["of"]) - 1).max(0) as usize;
        match st(&e["a"]) {
            "make" => {
                let kind = st(&e["kind"]);
                let k = loop {
                    let Some(k) = some_key(r, d) else { continue };
                    let n = match &k.kind {
                        PrivateKeyKind::Rsa(_) => "rsa",
                        PrivateKeyKind::Ecdsa(_) => "ec",
                        PrivateKeyKind::Ed25519(_) => "ed",
                        PrivateKeyKind::EcdsaSk(_) => "ecsk",
                        PrivateKeyKind::Ed25519Sk(_) => "edsk",
                    };
                    if n == kind {
                        break k;
                    }
                };
                let x = held(&mut s, k);
                all.push(Some(x));
            }
            "copy" => {
                let (of, c) = all[of].as_ref().map(|x| (x.0, x.1.clone())).unwrap();
                let h = s.h();
                s.calls += 1;
                s.push("copy", &[("h", h.to_string()), ("of", of.to_string()), ("sec", arrs(&secrets(&c).1))]);
                all.push(Some((h, c)));
            }
            "pin" => {
                let n = r.range(3, 30);
                let pin: String = r.bytes(n).iter().map(|x| char::from(33 + x % 90)).collect();
                let ok = pinned(&mut s, all[of].as_mut().unwrap(), &pin, false);
                s.expect(ok);
            }
            _ => {
                let (h, k) = all[of].take().unwrap();
                end_of(&mut s, h, k, int(&e["how"]) as usize, r);
            }
        }
        // everyone else is as before
        for (h, k) in all.iter().flatten() {
            s.push("look", &[("h", h.to_string()), ("sec", arrs(&secrets(k).1))]);
        }
    }
    while let Some(x) = all.pop() {
        if let Some((h, k)) = x {
            end_of(&mut s, h, k, 0, r);
        }
    }
    s
}
pub fn c23(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let mut live: Vec<(usize, PrivateKey)> = vec![];
    let n = r.range(2, 12);
    for _ in 0..n {
        match r.n(10) {
            0 | 1 | 2 => {
                if let Some(k) = some_key(r, d) {
                    let x = held(&mut s, k);
                    live.push(x);
                }
            }
            3 | 4 | 5 => {
                if !live.is_empty() {
                    let i = r.n(live.len());
                    s.calls += 1;
                    let (of, c) = (live[i].0, live[i].1.clone());
                    let h = s.h();
                    let ok = secrets(&c) == secrets(&live[i].1);
                    s.push("copy", &[("h", h.to_string()), ("of", of.to_string()), ("sec", arrs(&secrets(&c).1))]);
                    s.expect(ok);
                    live.push((h, c));
                }
            }
            6 => {
                if !live.is_empty() {
                    let i = r.n(live.len());
                    s.calls += 1;
                    let n = r.range(1, 30);
                    let pin: String = r.bytes(n).iter().map(|x| char::from(33 + x % 90)).collect();
                    let path = r.chance(40);
                    let ok = pinned(&mut s, &mut live[i], &pin, path);
                    s.expect(ok);
                }
            }
            _ => {
                if !live.is_empty() {
                    let i = r.n(live.len());
                    let (h, k) = live.swap_remove(i);
                    let how = r.n(10);
                    let snap: Vec<_> = live.iter().map(|(h, k)| (*h, secrets(k).1)).collect();
                    end_of(&mut s, h, k, how, r);
                    // the others are as they were
                    for (j, (h, k)) in live.iter().enumerate() {
                        let sec = secrets(k).1;
                        let ok = sec == snap[j].1;
                        s.push("look", &[("h", h.to_string()), ("sec", arrs(&sec))]);
                        s.expect(ok);
                    }
                }
            }
        }
        if live.len() > 4 {
            let (h, k) = live.remove(0);
            end_of(&mut s, h, k, 0, r);
        }
    }
    while let Some((h, k)) = live.pop() {
        let how = r.n(10);
        end_of(&mut s, h, k, how, r);
    }
    s
}

// ---------------- C25 ----------------
/// values drawn by one history of calls
fn draws(r: &mut Rng, n: usize) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    let ca = Signer::ed(r);
    let sk = crate::p_build::priv_of(&ca, r);
    for i in 0..n {
        match r.n(3) {
            0 | 1 => {
                let u = Signer::any(r, "ssh:");
                let ct = if r.chance(50) { CertType::User } else { CertType::Host };
                let Ok(c) = Certificate::builder(&u.pk.ssh(), ct, &ca.pk.ssh()) else { continue };
                let (nonce, serial) = (c.nonce.clone(), c.serial.to_be_bytes().to_vec());
                v.push(("nonce", nonce.clone(), serial));
                let mut c = c;
                let k = r.n(8);
                for _ in 0..k {
                    c = match r.n(9) {
                        0 => c.serial(i as u64),
                        1 => c.key_id("x"),
                        2 => c.principal("p"),
                        3 => c.set_principals(&["a".to_string(), "b".to_string()]),
                        4 => c.valid_after(1),
                        5 => c.valid_before(u64::MAX),
                        6 => c.extension("permit-pty", ""),
                        7 => c.set_extensions(Certificate::standard_extensions()),
                        _ => c.critical_option("force-command", "x"),
                    };
                }
                v.push(("kept", nonce.clone(), c.nonce.clone()));
                if let (Some(sk), true) = (&sk, r.chance(40)) {
                    if let Ok(c) = c.sign(sk) {
                        v.push(("kept", nonce.clone(), c.nonce.clone()));
                        // what was signed says the same
                        if let Ok(b) = Certificate::from_bytes(&c.serialized) {
                            v.push(("kept", nonce, b.nonce.clone()));
                        }
                    }
                }
            }
            _ => {
                if let Ok(k) = PrivateKey::new(KeyTypeKind::Ed25519, "c") {
                    let (_, s) = secrets(&k);
                    let mut seed = s[0].clone();
                    seed.truncate(32);
                    v.push(("seed", seed, k.magic.to_be_bytes().to_vec()));
                }
            }
        }
    }
    v
}
/// harness draw SEED N: a fresh process
pub fn draw_main(seed: u64, n: usize) {
    let mut r = Rng::new(seed);
    for (k, a, b) in draws(&mut r, n) {
        println!("{k} {} {}", hexs(&a), hexs(&b));
    }
}
fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<String>() + "."
}
fn self_cmd() -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    let root = ROOT.get().cloned().unwrap_or("/verif".into());
    c.arg("child").args(["--root", &root]);
    c
}
pub static ROOT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn c25(r: &mut Rng, _d: &Dict) -> Sess {
    let mut s = Sess::new();
    let mut all: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    // several processes at the same time
    let procs = r.range(1, 3);
    let per = r.range(20, 50);
    let seed = r.u64() >> 1;
    let mut kids = vec![];
    for i in 0..procs {
        // some start with the very same inputs
        let sd = if r.chance(50) { seed } else { seed + i as u64 };
        kids.push(self_cmd().args(["draw", &sd.to_string(), &per.to_string()]).stdout(std::process::Stdio::piped()).spawn().expect("child"));
    }
    // several threads of this process, some with the same inputs
    let th = r.range(1, 4);
    let got: Vec<Vec<_>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..th)
            .map(|i| {
                let sd = if i % 2 == 0 { seed } else { seed + i as u64 };
                sc.spawn(move || draws(&mut Rng::new(sd), per))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for g in got {
        all.extend(g.into_iter().map(|(k, a, b)| (k.to_string(), a, b)));
    }
    for k in kids {
        let o = k.wait_with_output().expect("child");
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() == 3 {
                all.push((p[0].into(), hex(p[1].trim_end_matches('.')), hex(p[2].trim_end_matches('.'))));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    let mut pairs = vec![];
    let mut cnt = std::collections::BTreeMap::new();
    let mut put = |s: &mut Sess, k: &str, v: &[u8], len: usize| {
        let op = if k == "magic" { "draw" } else { "fresh" };
        s.push(op, &[("v", format!("[{},{}]", q(k), arr(v)))]);
        let e = cnt.entry(k.to_string()).or_insert((0usize, len));
        e.0 += 1;
        let rep = v.len() >= 6 && (0..v.len() - 5).any(|i| (i + 1..v.len() - 5).any(|j| v[i..i + 6] == v[j..j + 6]));
        let ok = v.len() == len && !rep && (seen.insert((k.to_string(), v.to_vec())) || k == "magic");
        s.expect(ok);
    };
    for (k, a, b) in &all {
        s.calls += 1;
        match k.as_str() {
            "nonce" => {
                put(&mut s, "nonce", a, 32);
                put(&mut s, "serial", b, 8);
                s.push("apart", &[("a", arr(b)), ("b", arr(a))]);
                let rev: Vec<u8> = b.iter().rev().cloned().collect();
                let ok = !a.windows(8).any(|w| w == b.as_slice() || w == rev.as_slice());
                s.expect(ok);
            }
            "seed" => {
                put(&mut s, "seed", a, 32);
                put(&mut s, "magic", b, 4);
                pairs.push((b.clone(), a.clone()));
            }
            _ => {
                s.push("still", &[("a", arr(a)), ("b", arr(b))]);
                s.expect(a == b);
            }
        }
    }
    // four bytes may be found in thirty-two by chance, not again and again
    pairs.truncate(12);
    if pairs.len() >= 4 {
        let m: Vec<String> = pairs.iter().map(|(a, b)| format!("[{},{}]", arr(a), arr(b))).collect();
        s.push("aparts", &[("m", format!("[{}]", m.join(",")))]);
        let hits = pairs.iter().filter(|(b, a)| a.windows(4).any(|w| w == b.as_slice() || w.iter().rev().eq(b.iter()))).count();
        s.expect(hits <= 1);
    }
    for (k, (n, len)) in cnt.clone() {
        if n < 48 {
            continue;
        }
        let want = if k == "magic" { n - 2 } else { n };
        s.push("spread", &[("kind", q(&k)), ("n", want.to_string()), ("len", len.to_string()), ("min", "16".into())]);
        let vals: Vec<&Vec<u8>> = seen.iter().filter(|x| x.0 == k).map(|x| &x.1).filter(|x| x.len() == len).collect();
        let ok = vals.len() >= want
            && (0..len).all(|i| {
                let c: std::collections::HashSet<u8> = vals.iter().map(|v| v[i]).collect();
                c.len() >= 16
                    && (0..8).all(|b| c.iter().any(|x| x >> b & 1 == 1) && c.iter().any(|x| x >> b & 1 == 0))
                    && (i + 1..len).all(|j| vals.iter().any(|v| v[i] != v[j]))
            });
        s.expect(ok);
    }
    s
}

/// a history of MC_Fresh
pub fn fresh_run(v: &serde_json::Value, r: &mut Rng) -> Sess {
    use crate::scen::{int, st};
    use std::sync::{Mutex, OnceLock};
    // everything this process has ever drawn
    static EVER: OnceLock<Mutex<std::collections::HashSet<(&'static str, Vec<u8>)>>> = OnceLock::new();
    type Job = Box<dyn FnOnce() + Send>;
    let mut s = Sess::new();
    let (ca, user) = (Signer::ed(r), Signer::ed(r));
    let (cak, uk) = (ca.pk.ssh(), user.pk.ssh());
    let sk = PrivateKey::from_string(&crate::p_priv::plain_file(&ca, r, "")).unwrap();
    let mut certs: Vec<(usize, Vec<u8>, Certificate)> = vec![];
    let mut got: Vec<(&'static str, Vec<u8>)> = vec![];
    std::thread::scope(|sc| {
        let mut tx = vec![];
        for _ in 0..3 {
            let (a, b) = std::sync::mpsc::channel::<Job>();
            sc.spawn(move || {
                for j in b {
                    j();
                }
            });
            tx.push(a);
        }
        // run on the given threads at the same time
        fn on<T: Send + 'static>(tx: &[std::sync::mpsc::Sender<Job>], who: &[usize], f: impl Fn() -> T + Send + Sync + 'static) -> Vec<Option<T>> {
            let f = std::sync::Arc::new(f);
            let gate = std::sync::Arc::new(std::sync::Barrier::new(who.len()));
            let (a, b) = std::sync::mpsc::channel();
            for t in who {
                let (f, a, g) = (f.clone(), a.clone(), gate.clone());
                let _ = tx[*t - 1].send(Box::new(move || {
                    g.wait();
                    let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).ok();
                    let _ = a.send(o);
                }));
            }
            drop(a);
            b.iter().collect()
        }
        let mut next = 0;
        for e in v.as_array().unwrap() {
            let t = int(&e["t"]) as usize;
            let who: Vec<usize> = if t == 0 { vec![1, 2] } else { vec![t] };
            let i = (int(&e["x"]) - 1).max(0) as usize;
            s.calls += who.len();
            let mut bad = false;
            match st(&e["a"]) {
                "cert" => {
                    let (u, c) = (uk.clone(), cak.clone());
                    for o in on(&tx, &who, move || Certificate::builder(&u, CertType::User, &c)) {
                        match o {
                            Some(Ok(c)) => {
                                got.push(("nonce", c.nonce.clone()));
                                got.push(("serial", c.serial.to_be_bytes().to_vec()));
                                next += 1;
                                certs.push((next, c.nonce.clone(), c));
                            }
                            _ => bad = true,
                        }
                    }
                }
                "key" => {
                    for o in on(&tx, &who, || PrivateKey::new(KeyTypeKind::Ed25519, "")) {
                        match o {
                            Some(Ok(k)) => {
                                let mut x = secrets(&k).1[0].clone();
                                x.truncate(32);
                                got.push(("seed", x));
                            }
                            _ => bad = true,
                        }
                    }
                }
                a => {
                    let (id, n, c) = certs[i].clone();
                    let f = st(&e["f"]).to_string();
                    let (a, key) = (a.to_string(), sk.clone());
                    let what = a.clone();
                    let o = on(&tx, &who, move || {
                        let c = c.clone();
                        Some(match (what.as_str(), f.as_str()) {
                            ("sign", _) => c.sign(&key).ok()?,
                            ("import", _) => Certificate::from_string(&format!("{c}")).ok()?,
                            ("copy", _) => c,
                            (_, "serial") => c.serial(0),
                            (_, "id") => c.key_id("x"),
                            (_, "exs") => c.set_extensions(Certificate::standard_extensions()),
                            (_, "ex") => c.extension("permit-pty", ""),
                            (_, "cr") => c.critical_option("force-command", "x"),
                            (_, "pr") => c.principal("p"),
                            (_, "va") => c.valid_after(1),
                            _ => c.valid_before(u64::MAX),
                        })
                    })
                    .pop()
                    .flatten()
                    .flatten();
                    match o {
                        Some(c) if a == "copy" || a == "import" => certs.push((id, n, c)),
                        Some(c) => certs[i].2 = c,
                        // importing again after a change is refused, rightly
                        None => bad = a != "import",
                    }
                }
            }
            if bad {
                s.push("crash", &[]);
                s.expect(false);
            }
            for (_, n, c) in &certs {
                s.push("still", &[("a", arr(n)), ("b", arr(&c.nonce))]);
                s.expect(*n == c.nonce);
                if c.serialized.len() > 100 {
                    // what was signed says the same
                    let p = 4 + 32 + 4;
                    s.push("still", &[("a", arr(n)), ("b", arr(&c.serialized[p..p + 32]))]);
                    s.expect(n[..] == c.serialized[p..p + 32]);
                }
            }
        }
    });
    let mut ever = EVER.get_or_init(Default::default).lock().unwrap();
    for (k, x) in got {
        let rep = (0..x.len() - 5).any(|i| (i + 1..x.len() - 5).any(|j| x[i..i + 6] == x[j..j + 6]));
        let again = ever.contains(&(k, x.clone()));
        if again {
            // drawn in an earlier history
            s.push("draw", &[("v", format!("[{},{}]", q(k), arr(&x)))]);
        }
        s.push("fresh", &[("v", format!("[{},{}]", q(k), arr(&x)))]);
        s.expect(!rep && !again);
        ever.insert((k, x));
    }
    s
}

// ---------------- C26 ----------------
#[derive(Clone)]
pub struct Q {
    op: &'static str,
    a: Vec<Vec<u8>>,
}
const QOPS: [&str; 22] = [
    "cert_b", "cert_t", "pub_l", "pub_b", "sig_p", "sig_v", "priv_t", "priv_b", "sign", "sig_n", "as_l", "as_f", "auth", "fido", "piv", "x_cert", "x_csr", "x_der", "der_rs",
    "build", "kt", "file",
];
fn st(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn rend<T>(r: Result<T, sshcerts::error::Error>, f: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(v) => "ok ".to_string() + &f(&v),
        Err(_) => "err".into(),
    }
}
fn cj(c: &Certificate) -> String {
    // a new session: long inputs come out the same every time
    let mut s = Sess::new();
    let j = cert_j(&mut s, c);
    j + &s.ev.join(",")
}
/// the answer to a question, without anything drawn at random
fn answer(x: &Q) -> String {
    let a = &x.a;
    let f = || -> String {
        match x.op {
            "cert_b" => rend(Certificate::from_bytes(&a[0]), |c| cj(c) + &format!("{c}")),
            "cert_t" => rend(Certificate::from_string(&st(&a[0])), |c| cj(c)),
            "pub_l" => rend(PublicKey::from_string(&st(&a[0])), |k| pub_j(k) + &format!("{k}{}{:#}", k.fingerprint(), k)),
            "pub_b" => rend(PublicKey::from_bytes(&a[0]), |k| pub_j(k) + &k.fingerprint().to_string() + &arr(&k.encode())),
            "sig_p" => rend(SshSignature::from_armored_string(&st(&a[0])), |s| sig_j(s)),
            "sig_v" => {
                let pk = if a[3].is_empty() { None } else { PublicKey::from_bytes(&a[3]).ok() };
                rend(SshSignature::from_armored_string(&st(&a[0])).and_then(|s| VerifiedSshSignature::from_ssh_signature(&a[1], s, &st(&a[2]), pk)), |v| {
                    sig_j(&v.signature) + &arr(&v.message) + &format!("{v}")
                })
            }
            "priv_t" => {
                let p = if a[1].first() == Some(&1) { Some(st(&a[1][1..])) } else { None };
                rend(PrivateKey::from_string_with_passphrase(&st(&a[0]), p), |k| priv_j(k) + &arr(&k.encode()) + &format!("{k}"))
            }
            "priv_b" => rend(PrivateKey::from_bytes(&a[0]), priv_j),
            "sign" => rend(PrivateKey::from_string(&st(&a[0])), |k| {
                let sg = SSHCertificateSigner::sign(k, &a[1]);
                match sg {
                    None => "none".into(),
                    Some(g) => {
                        let det = if fam(&pub_m(&k.pubkey).kt) == "ecdsa" { String::new() } else { arr(&g) };
                        format!("sig {} {det}", crate::p_sig::ref_verify(&pub_m(&k.pubkey), &g, &a[1]))
                    }
                }
            }),
            "sig_n" => rend(PrivateKey::from_string(&st(&a[0])), |k| {
                let ha = match a[3].first() {
                    Some(1) => Some(HashAlgorithm::Sha256),
                    Some(2) => Some(HashAlgorithm::Sha512),
                    _ => None,
                };
                rend(VerifiedSshSignature::new_with_private_key(&a[1], &st(&a[2]), k.clone(), ha), |v| {
                    let again = rend(
                        SshSignature::from_armored_string(&format!("{v}")).and_then(|s| VerifiedSshSignature::from_ssh_signature(&a[1], s, &st(&a[2]), Some(k.pubkey.clone()))),
                        |_| "verifies".into(),
                    );
                    pub_j(&v.signature.pubkey) + &v.signature.namespace + ha_name(&v.signature.hash_algorithm) + &again
                })
            }),
            "as_l" => rend(AllowedSigner::from_string(&st(&a[0])), |e| entry_j(e) + &format!("{e}")),
            "as_f" => rend(AllowedSigners::from_string(&st(&a[0])), |e| {
                let AllowedSigners(v) = e;
                v.iter().map(entry_j).collect::<Vec<_>>().join(";")
            }),
            "auth" => rend(sshcerts::fido::AuthData::parse(&a[0]), |x| rend(x.ssh_public_key("ssh:"), pub_j) + &format!("{:?}{:?}{}", x.rpid_hash, x.credential_id, x.sign_count)),
            "fido" => {
                let root = if a[5].is_empty() { None } else { Some(st(&a[5])) };
                let alg = i32::from_be_bytes([a[3][0], a[3][1], a[3][2], a[3][3]]);
                rend(sshcerts::fido::verification::verify_auth_data(&a[0], &a[1], &a[2], alg, &a[4], root.as_deref()), |v| {
                    format!("{:?} {:?}", v.firmware, v.aaguid)
                })
            }
            "piv" => {
                let root = if a[2].is_empty() { None } else { Some(st(&a[2])) };
                rend(sshcerts::yubikey::verification::verify_certificate_chain(&a[0], &a[1], root.as_deref()), |v| {
                    format!("{} {} {} {} {}", pub_j(&v.public_key), v.firmware, v.serial, v.pin_policy, v.touch_policy)
                })
            }
            "x_cert" => rend(sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(&a[0]), pub_j),
            "x_csr" => rend(sshcerts::x509::extract_ssh_pubkey_from_x509_csr(&a[0]), pub_j),
            "x_der" => rend(sshcerts::x509::der_encoding_to_ssh_public_key(&a[0]), pub_j),
            "der_rs" => format!("{:?}", sshcerts::utils::signature_convert_asn1_ecdsa_to_ssh(&a[0])),
            "build" => rend(PrivateKey::from_string(&st(&a[0])), |k| {
                rend(PublicKey::from_bytes(&a[1]), |u| {
                    rend(
                        Certificate::builder(u, CertType::User, &k.pubkey)
                            .map(|c| c.key_id(st(&a[2])).principal("p").serial(7).set_extensions(Certificate::standard_extensions()))
                            .and_then(|c| c.sign(k)),
                        |c| {
                            let back = rend(Certificate::from_bytes(&c.serialized), |b| format!("{}", b.key_id == c.key_id && b.nonce == c.nonce && b.principals == c.principals));
                            format!("{} {} {:?} {} {}", c.key_id, c.serial, c.principals, map_j(&c.extensions), back)
                        },
                    )
                })
            }),
            "kt" => format!("{:?}", KeyType::from_name(&st(&a[0])).ok().map(|k| (k.name, k.plain, k.is_cert, k.as_cert_name(), k.as_pubkey_name()))),
            _ => with_file(&a[0], |p| format!("{} {} {}", rend(PublicKey::from_path(p), pub_j), rend(Certificate::from_path(p), cj), rend(PrivateKey::from_path(p), priv_j))),
        }
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => t,
        Err(_) => "panic".into(),
    }
}
fn qline(x: &Q) -> String {
    format!("{} {}", x.op, x.a.iter().map(|b| hexs(b)).collect::<Vec<_>>().join(" "))
}
fn qparse(l: &str) -> Q {
    let mut p = l.split(' ');
    let op = p.next().unwrap_or("");
    let op = QOPS.iter().find(|x| **x == op).expect("op");
    Q { op, a: p.map(|h| hex(h.trim_end_matches('.'))).collect() }
}
fn digest(t: &str) -> Vec<u8> {
    sha("sha256", t.as_bytes())[..12].to_vec()
}
/// questions asked in the given order by a number of threads
fn ask(qs: &[Q], order: &[usize], threads: usize) -> Vec<(usize, Vec<u8>)> {
    if threads <= 1 {
        return order.iter().map(|i| (*i, digest(&answer(&qs[*i])))).collect();
    }
    let parts: Vec<Vec<(usize, Vec<u8>)>> = std::thread::scope(|sc| {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let bar = bar.clone();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        bar.wait();
                        // everyone asks everything, in an order of their own
                        let k = order.len().max(1);
                        (0..order.len())
                            .map(|j| {
                                let i = match t % 3 {
                                    0 => order[j],
                                    1 => order[order.len() - 1 - j],
                                    _ => order[(j + t * k / threads) % k],
                                };
                                (i, digest(&answer(&qs[i])))
                            })
                            .collect::<Vec<_>>()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    parts.concat()
}
/// a long past: thousands of calls like some of the questions, the same and
/// altered ones
fn wear(r: &mut Rng, qs: &[Q]) {
    let mut o: Vec<usize> = (0..qs.len()).filter(|i| !["priv_t", "build", "sig_n"].contains(&qs[*i].op)).collect();
    r.shuffle(&mut o);
    o.truncate(6);
    let t0 = std::time::Instant::now();
    for _ in 0..3000 {
        for i in &o {
            let mut x = qs[*i].clone();
            if r.chance(50) {
                x.a[0] = tweak(r, &x.a[0]);
            }
            let _ = answer(&x);
        }
        if t0.elapsed().as_secs() >= 6 {
            break;
        }
    }
}
/// harness child ask FILE SEED MODE
pub fn ask_main(file: &str, seed: u64, mode: usize) {
    let qs: Vec<Q> = std::fs::read_to_string(file).expect("questions").lines().map(qparse).collect();
    let mut r = Rng::new(seed);
    let mut o: Vec<usize> = (0..qs.len()).collect();
    let mut th = 1;
    match mode {
        0 => o.reverse(),
        1 => r.shuffle(&mut o),
        2 => {
            // each question in between repetitions of others
            let mut v = vec![];
            for _ in 0..3 * qs.len() {
                v.push(r.n(qs.len()));
            }
            o = v;
        }
        3 => {
            // only some are asked at all
            r.shuffle(&mut o);
            o.truncate(1 + qs.len() / 4);
        }
        5 => (),
        _ => {
            r.shuffle(&mut o);
            th = 4;
        }
    }
    if mode == 5 {
        wear(&mut r, &qs);
    }
    for (i, v) in ask(&qs, &o, th) {
        println!("{i} {}", hexs(&v));
    }
}
fn tweak(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return vec![1];
    }
    match r.n(4) {
        0 => v.truncate(r.n(v.len())),
        1 => {
            let i = v.len() - 1 - r.n(v.len().min(40));
            v[i] ^= 1 << r.n(8);
        }
        _ => {
            let i = r.n(v.len());
            v[i] ^= 1 << r.n(8);
        }
    }
    v
}
/// a family of related questions: valid ones, forgeries of them, relatives
fn family(r: &mut Rng, d: &Dict) -> Vec<Q> {
    let mut v: Vec<Q> = vec![];
    let mut s = Sess::new();
    let mut q = |op: &'static str, a: &[&[u8]]| v.push(Q { op, a: a.iter().map(|x| x.to_vec()).collect() });
    match r.n(10) {
        0 | 1 => {
            let i = crate::p_cert::issue(&mut s, r, d);
            q("cert_b", &[&i.b]);
            q("cert_t", &[crate::p_cert::text_of(&i.m, &i.b).as_bytes()]);
            // the same content with a signature that does not fit, and the other way round
            for _ in 0..3 {
                let t = tweak(r, &i.b);
                q("cert_b", &[&t]);
                q("cert_t", &[crate::p_cert::text_of(&i.m, &t).as_bytes()]);
            }
            // the same signer certifies something else
            let mut m2 = i.m.clone();
            m2.id = r.text(d, 20);
            let j = crate::p_cert::issue_m(&mut s, r, m2, i.k.clone());
            q("cert_b", &[&j.b]);
            q("pub_b", &[&i.k.pk.enc()]);
            q("pub_l", &[i.k.pk.line().as_bytes()]);
            q("file", &[crate::p_cert::text_of(&i.m, &i.b).as_bytes()]);
        }
        2 | 3 => {
            let k = Signer::any(r, "ssh:");
            let k2 = Signer::any(r, "ssh:");
            let (msg, ns) = (r.bytes(20), "file");
            let ha = if r.chance(50) { "sha256" } else { "sha512" };
            let m = crate::p_sig::detached(&mut s, r, &k, &msg, ns, ha);
            let t = m.text();
            let msg2 = tweak(r, &msg);
            for (mm, n, pk) in [(&msg, "file", vec![]), (&msg2, "file", vec![]), (&msg, "git", vec![]), (&msg, "file", k.pk.enc()), (&msg, "file", k2.pk.enc()), (&msg, "", vec![])] {
                q("sig_v", &[t.as_bytes(), mm, n.as_bytes(), &pk]);
            }
            let b = m.bytes();
            for _ in 0..3 {
                let y = tweak(r, &b);
                let t = armor(&y, "-----BEGIN SSH SIGNATURE-----", "-----END SSH SIGNATURE-----", 70, "\n");
                q("sig_v", &[t.as_bytes(), &msg, ns.as_bytes(), b""]);
                q("sig_p", &[t.as_bytes()]);
            }
            let m2 = crate::p_sig::detached(&mut s, r, &k2, &msg, ns, "sha512");
            q("sig_v", &[m2.text().as_bytes(), &msg, ns.as_bytes(), b""]);
        }
        4 | 5 => {
            let k = any_priv(r, d);
            let m = model(&k, r.u64() as u32, "c", r, d);
            let t = FileM::plain(&m).text();
            q("priv_t", &[t.as_bytes(), &[0]]);
            q("priv_t", &[t.as_bytes(), b"\x01pw"]);
            q("priv_b", &[&m.inner()]);
            q("sign", &[t.as_bytes(), b"hello"]);
            q("sign", &[t.as_bytes(), b"hellp"]);
            for h in [0u8, 1, 2] {
                q("sig_n", &[t.as_bytes(), b"m", b"file", &[h]]);
            }
            q("sig_n", &[t.as_bytes(), b"m", b"", &[0]]);
            q("file", &[t.as_bytes()]);
            let salt = r.bytes(16);
            if let Some(ks) = keystream("pw", &salt, 1, m.section(16).len()) {
                let e = FileM::enc(&m, &salt, 1, &ks).text();
                q("priv_t", &[e.as_bytes(), b"\x01pw"]);
                q("priv_t", &[e.as_bytes(), b"\x01px"]);
                q("priv_t", &[e.as_bytes(), &[0]]);
                q("priv_t", &[e.as_bytes(), &[1]]);
                // another key under the same salt and passphrase
                let k2 = any_priv(r, d);
                let m2 = model(&k2, r.u64() as u32, "d", r, d);
                if let Some(ks) = keystream("pw", &salt, 1, m2.section(16).len()) {
                    q("priv_t", &[FileM::enc(&m2, &salt, 1, &ks).text().as_bytes(), b"\x01pw"]);
                }
            }
            let i = tweak(r, &FileM::plain(&m).bytes());
            q("priv_t", &[armor(&i, BEGIN, END, 70, "\n").as_bytes(), &[0]]);
            let u = Signer::any(r, "ssh:");
            q("build", &[t.as_bytes(), &u.pk.enc(), b"id"]);
            q("build", &[t.as_bytes(), &k.pk.enc(), b"id2"]);
        }
        6 => {
            let pool = [Signer::ed(r).pk, Signer::ec(r, "nistp256").pk];
            let mut file = String::new();
            for _ in 0..4 {
                let sp = crate::p_allow::spec(r, d, &pool);
                let t = crate::p_allow::render(r, &sp);
                q("as_l", &[t.as_bytes()]);
                let x = tweak(r, t.as_bytes());
                q("as_l", &[String::from_utf8_lossy(&x).as_bytes()]);
                file += &t;
                file.push('\n');
                q("as_f", &[file.as_bytes()]);
            }
            q("as_f", &[(file + "broken line\n").as_bytes()]);
        }
        7 => crate::p_fido::questions(r, d, &mut |op, a| q(op, a)),
        8 => {
            for _ in 0..3 {
                let p = any_pub(r, d);
                q("pub_b", &[&p.enc()]);
                q("pub_l", &[p.line().as_bytes()]);
                let y = tweak(r, &p.enc());
                q("pub_b", &[&y]);
                q("pub_l", &[format!("{} {} cm", p.kt, b64(&y)).as_bytes()]);
                q("pub_l", &[format!("x{} {}", p.kt, b64(&p.enc())).as_bytes()]);
                q("kt", &[p.kt.as_bytes()]);
                q("kt", &[cert_name(&p.kt).as_bytes()]);
                q("file", &[p.line().as_bytes()]);
            }
        }
        _ => {
            for _ in 0..4 {
                let a = crate::p_fido::auth_data(r, d);
                q("auth", &[&a]);
                let y = tweak(r, &a);
                q("auth", &[&y]);
                q("der_rs", &[&r.blob(d, 40)]);
            }
        }
    }
    v
}
pub fn c26(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let mut qs: Vec<Q> = vec![];
    let n = r.range(1, 4);
    for _ in 0..n {
        qs.extend(family(r, d));
    }
    r.shuffle(&mut qs);
    qs.truncate(40);
    s.calls += qs.len();
    let order: Vec<usize> = (0..qs.len()).collect();
    let mut got = ask(&qs, &order, 1);
    let file = format!("{}/q.{:?}", SCRATCH.get().expect("scratch"), std::thread::current().id());
    std::fs::write(&file, qs.iter().map(|x| qline(x) + "\n").collect::<String>()).expect("questions");
    // other histories, each in a process of its own
    let mut kids = vec![];
    let modes = [r.n(2), 2 + r.n(2), 4];
    for m in modes {
        if m != 4 || r.chance(60) {
            let m = if m == 4 && r.chance(35) { 5 } else { m };
            kids.push(self_cmd().args(["ask", &file, &r.u64().to_string(), &m.to_string(), &SCRATCH.get().unwrap()]).stdout(std::process::Stdio::piped()).spawn().expect("child"));
        }
    }
    got.extend(ask(&qs, &order, if r.chance(30) { 3 } else { 1 }));
    let mut bad = false;
    for k in kids {
        let o = k.wait_with_output().expect("child");
        if !o.status.success() {
            bad = true;
        }
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Some((i, h)) = l.split_once(' ') {
                got.push((i.parse().unwrap(), hex(h.trim_end_matches('.'))));
            }
        }
    }
    let _ = std::fs::remove_file(&file);
    s.calls += got.len();
    let mut first: std::collections::HashMap<usize, Vec<u8>> = Default::default();
    let mut diff = vec![];
    for (i, v) in &got {
        s.push("ans", &[("c", i.to_string()), ("v", arr(v))]);
        let f = first.entry(*i).or_insert(v.clone()).clone();
        s.expect(f == *v);
        if f != *v {
            diff.push(*i);
        }
    }
    for i in diff.iter().take(3) {
        s.why.push(qline(&qs[*i]).chars().take(3000).collect());
        // the question itself, for the replay
        s.push("note", &[("in", format!("{{\"d\":{}}}", arr32(&qline(&qs[*i]).chars().map(|c| c as u32).collect::<Vec<_>>())))]);
    }
    if bad {
        s.push("crash", &[("what", q("a process asked the same questions did not finish"))]);
        s.expect(false);
    }
    s
}

/// a schedule of MC_Asks
pub fn asks(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::scen::int;
    let mut s = Sess::new();
    let mut qs = loop {
        let mut x = family(r, d);
        if r.chance(20) {
            x.extend(family(r, d));
        }
        if x.len() >= 3 {
            break x;
        }
    };
    r.shuffle(&mut qs);
    qs.truncate(3);
    let qs = std::sync::Arc::new(qs);
    let mut got: Vec<(usize, Vec<u8>)> = vec![];
    std::thread::scope(|sc| {
        let mut tx = vec![];
        for _ in 0..3 {
            let (a, b) = std::sync::mpsc::channel::<usize>();
            let (c, e) = std::sync::mpsc::channel::<Vec<u8>>();
            let qs = qs.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    for i in b {
                        let _ = c.send(digest(&answer(&qs[i])));
                    }
                })
                .unwrap();
            tx.push((a, e));
        }
        for e in v.as_array().unwrap() {
            let (t, i) = (int(&e["t"]) as usize - 1, int(&e["q"]) as usize - 1);
            if e["a"] == "begin" {
                s.calls += 1;
                let _ = tx[t].0.send(i);
            } else {
                got.push((i, tx[t].1.recv().unwrap_or_default()));
            }
        }
    });
    // and each in a process that has seen nothing else
    if r.chance(15) {
        for (i, x) in qs.iter().enumerate() {
            let file = format!("{}/q.{:?}", SCRATCH.get().expect("scratch"), std::thread::current().id());
            std::fs::write(&file, qline(x) + "\n").expect("question");
            let o = self_cmd().args(["ask", &file, "1", "0", SCRATCH.get().unwrap()]).output().expect("child");
            if let Some((_, h)) = String::from_utf8_lossy(&o.stdout).lines().next().and_then(|l| l.split_once(' ')) {
                got.push((i, hex(h.trim_end_matches('.'))));
            }
            let _ = std::fs::remove_file(&file);
        }
    }
    let mut first: std::collections::HashMap<usize, Vec<u8>> = Default::default();
    for (i, v) in &got {
        s.push("ans", &[("c", i.to_string()), ("v", arr(v))]);
        let same = first.entry(*i).or_insert(v.clone()) == v;
        s.expect(same);
        if !same {
            s.why.push(qline(&qs[*i]).chars().take(3000).collect());
        }
    }
    s
}

// ---------------- C17 ----------------
type Gen = fn(&mut Rng, &Dict) -> Sess;
const ALL: [Gen; 20] = [
    crate::p_cert::c01,
    crate::p_cert::c02,
    crate::p_build::c04,
    crate::p_sig::c05,
    crate::p_sig::c07,
    crate::p_pub::c08,
    c09,
    c10,
    c11,
    crate::p_allow::c12,
    crate::p_allow::c13,
    crate::p_allow::c14,
    crate::p_wire::c15,
    crate::p_wire::c24,
    crate::p_fido::c18,
    crate::p_fido::c19,
    crate::p_fido::c20,
    crate::p_fido::c21,
    crate::p_fido::c22,
    crate::p_build::c27,
];
/// the bytes of a well-formed object of any kind
fn base(r: &mut Rng, d: &Dict) -> Vec<u8> {
    let mut s = Sess::new();
    match r.n(9) {
        0 => crate::p_cert::issue(&mut s, r, d).b,
        1 => any_pub(r, d).enc(),
        2 => {
            let k = Signer::any(r, "ssh:");
            crate::p_sig::detached(&mut s, r, &k, b"m", "file", "sha512").bytes()
        }
        3 => {
            let k = any_priv(r, d);
            let m = model(&k, r.u64() as u32, "c", r, d);
            FileM::plain(&m).bytes()
        }
        4 => {
            let k = any_priv(r, d);
            model(&k, r.u64() as u32, "c", r, d).inner()
        }
        5 => crate::p_fido::auth_data(r, d),
        6 => {
            let mut v: Vec<Vec<u8>> = vec![];
            crate::p_fido::questions(r, d, &mut |_, a| v.extend(a.iter().map(|x| x.to_vec())));
            r.pick(&v).clone()
        }
        7 => r.blob(d, 400),
        _ => {
            // deep nesting, long runs
            let n = *r.pick(&[100, 1000, 20000]);
            let c = *r.pick(&[0x30u8, 0x9f, 0x81, 0xbf, 0xa1, 0x80, 0xff, 0, 0x24, b'"', b',', b' ', b'\n', b'-']);
            if r.chance(50) {
                // nested DER that adds up
                let mut v = vec![5u8, 0];
                for _ in 0..n / 20 {
                    v = crate::p_fido::der(if c == 0xa1 { 0xa1 } else { 0x30 }, &v);
                }
                v
            } else if r.chance(50) {
                let mut v = vec![0u8; 37];
                v[32] = 0x41;
                v.extend([0; 16]);
                v.extend([0, 1, 7]);
                v.extend(vec![c; n]);
                v
            } else {
                vec![c; n]
            }
        }
    }
}
fn mangle(r: &mut Rng, d: &Dict, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = r.n(4);
    for _ in 0..n {
        v = match r.n(7) {
            0 => {
                // a length field becomes enormous, tiny or off by a little
                if v.len() >= 4 {
                    let i = r.n(v.len() - 3);
                    let x = match r.n(5) {
                        0 => u32::MAX,
                        1 => 0x7fff_ffff,
                        2 => r.u32_pool(d),
                        3 => (v.len() - i) as u32,
                        _ => u32::from_be_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]).wrapping_add(r.n(3) as u32).wrapping_sub(1),
                    };
                    v[i..i + 4].copy_from_slice(&x.to_be_bytes());
                }
                v
            }
            1 => {
                // splice with another object
                let o = base(r, d);
                let (i, j) = (r.n(v.len() + 1), r.n(o.len() + 1));
                [&v[..i], &o[j..]].concat()
            }
            2 => {
                let l = v.len().min(3000);
                let i = r.n(l + 1);
                let j = r.n(l + 1);
                let (i, j) = (i.min(j), i.max(j));
                let mid = v[i..j].to_vec();
                [&v[..j], &mid[..], &v[j..]].concat()
            }
            _ => damage(r, d, &v),
        };
    }
    v
}
fn show(r: &mut Rng, d: &Dict, k: &PublicKey) {
    let _ = callv("bits", b"", || k.bits());
    let _ = callv("enc", b"", || k.encode());
    let _ = callv("disp", b"", || format!("{k} {:?}", k.fingerprint()));
    let _ = callv("md5", b"", || k.fingerprint_with(FingerprintKind::Sha384).to_string());
    let _ = callo("fmt", b"", || {
        let b = r.blob(d, 80);
        sshcerts::utils::format_signature_for_ssh(k, &b)
    });
}
fn feed(r: &mut Rng, d: &Dict, b: &[u8]) {
    if let R::Ok(c) = call("cert_bytes", b, || Certificate::from_bytes(b)) {
        let _ = callv("cert_disp", b, || format!("{c} {c:#?}"));
        let _ = callv("tbs", b, || c.tbs_certificate());
        show(r, d, &c.key);
    }
    if let R::Ok(k) = call("pub_bytes", b, || PublicKey::from_bytes(b)) {
        show(r, d, &k);
    }
    if let R::Ok(k) = call("priv_bytes", b, || PrivateKey::from_bytes(b)) {
        use_key(r, d, &k);
    }
    let _ = callo("der_rs", b, || sshcerts::utils::signature_convert_asn1_ecdsa_to_ssh(b));
    if let R::Ok(a) = call("auth", b, || sshcerts::fido::AuthData::parse(b)) {
        let _ = call("auth_key", b, || a.ssh_public_key("ssh:"));
    }
    let _ = call("x_cert", b, || sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(b));
    let _ = call("x_csr", b, || sshcerts::x509::extract_ssh_pubkey_from_x509_csr(b));
    let _ = call("x_der", b, || sshcerts::x509::der_encoding_to_ssh_public_key(b));
    let y = crate::p_fido::yu();
    let (ad, sig, ch, inter) = r.pick(&y.fido).clone();
    match r.n(6) {
        0 => drop(call("fido", b, || sshcerts::fido::verification::verify_auth_data(b, &sig, &ch, -7, &inter, None))),
        1 => drop(call("fido", b, || sshcerts::fido::verification::verify_auth_data(&ad, b, &ch, -7, &inter, None))),
        2 => drop(call("fido", b, || sshcerts::fido::verification::verify_auth_data(&ad, &sig, b, -7, &inter, None))),
        _ => drop(call("fido", b, || sshcerts::fido::verification::verify_auth_data(&ad, &sig, &ch, -7, b, None))),
    }
    let (leaf, inter) = r.pick(&y.piv).clone();
    let _ = call("piv", b, || sshcerts::yubikey::verification::verify_certificate_chain(b, &inter, None));
    let _ = call("piv", b, || sshcerts::yubikey::verification::verify_certificate_chain(&leaf, b, None));
    let _ = call("piv", b, || sshcerts::yubikey::verification::verify_certificate_chain(b, b, None));
    let _ = callv("reader", b, || {
        let mut x = Reader::new(b);
        for _ in 0..40 {
            match r.n(9) {
                0 => drop(x.read_bytes()),
                1 => drop(x.read_string()),
                2 => drop(x.read_cstring()),
                3 => drop(x.read_u32()),
                4 => drop(x.read_u64()),
                5 => drop(x.read_positive_mpint()),
                6 => {
                    let n = r.u64_pool(d) as usize;
                    drop(x.read_raw_bytes(if r.chance(50) { n % 64 } else { n }))
                }
                7 => {
                    if r.chance(20) {
                        let _ = x.set_offset(r.u64_pool(d) as usize);
                    } else {
                        let _ = x.set_offset(r.n(b.len() + 2));
                    }
                }
                _ => drop(x.get_offset()),
            }
        }
    });
    // signing with a key that takes this blob as an answer
    let ca = Signer::ed(r);
    let _ = call("add_sig", b, || Certificate::builder(&ca.pk.ssh(), CertType::User, &ca.pk.ssh())?.add_signature(b));
    let t = match r.n(3) {
        0 => armor(b, crate::p_sig::SB, crate::p_sig::SE, 70, "\n"),
        1 => armor(b, BEGIN, END, 70, "\n"),
        _ => {
            let kt = *r.pick(&PLAIN);
            let n = if r.chance(50) { cert_name(kt) } else { kt.to_string() };
            format!("{n} {} c", b64(b))
        }
    };
    feed_text(r, d, &t);
}
fn use_key(r: &mut Rng, d: &Dict, k: &PrivateKey) {
    let m = r.blob(d, 60);
    let _ = callo("sign", &k.encode(), || SSHCertificateSigner::sign(k, &m));
    let _ = callv("encode", b"", || k.encode());
    let _ = callv("disp", b"", || format!("{k}"));
    let _ = call("sig_new", &k.encode(), || VerifiedSshSignature::new_with_private_key(&m, "file", k.clone(), None));
    let _ = call("cert_sign", &k.encode(), || Certificate::builder(&k.pubkey, CertType::Host, &k.pubkey)?.sign(k));
    show(r, d, &k.pubkey);
}
fn feed_text(r: &mut Rng, d: &Dict, t: &str) {
    let b = t.as_bytes();
    if let R::Ok(s) = call("sig", b, || SshSignature::from_armored_string(t)) {
        let ns = if r.chance(70) { s.namespace.clone() } else { r.text(d, 10) };
        let _ = call("sig_v", b, || VerifiedSshSignature::from_ssh_signature(b"m", s, &ns, None));
    }
    // never a passphrase for a file that may ask for billions of rounds
    let pass = None;
    if let R::Ok(k) = call("priv", b, || PrivateKey::from_string_with_passphrase(t, pass)) {
        use_key(r, d, &k);
    }
    if let R::Ok(k) = call("pub", b, || PublicKey::from_string(t)) {
        show(r, d, &k);
    }
    let _ = call("cert", b, || Certificate::from_string(t));
    if let R::Ok(e) = call("as", b, || AllowedSigner::from_string(t)) {
        let _ = callv("as_disp", b, || format!("{e}"));
    }
    let _ = call("as_file", b, || AllowedSigners::from_string(t));
    let _ = call("kt", b, || KeyType::from_name(t));
    let _ = call("curve", b, || Curve::from_identifier(t));
    let y = crate::p_fido::yu();
    if r.chance(30) {
        let (ad, sig, ch, inter) = r.pick(&y.fido).clone();
        let _ = call("fido_root", b, || sshcerts::fido::verification::verify_auth_data(&ad, &sig, &ch, -7, &inter, Some(t)));
        let (leaf, inter) = r.pick(&y.piv).clone();
        let _ = call("piv_root", b, || sshcerts::yubikey::verification::verify_certificate_chain(&leaf, &inter, Some(t)));
    }
}
fn junk_text(r: &mut Rng, d: &Dict) -> String {
    let t = match r.n(8) {
        0 => r.text(d, 300),
        1 => {
            let pool = [Signer::ed(r).pk];
            let sp = crate::p_allow::spec(r, d, &pool);
            crate::p_allow::render(r, &sp)
        }
        2 => {
            let k = any_priv(r, d);
            plain_file(&k, r, "c")
        }
        3 => any_pub(r, d).line(),
        4 => {
            let mut s = Sess::new();
            let i = crate::p_cert::issue(&mut s, r, d);
            crate::p_cert::text_of(&i.m, &i.b)
        }
        5 => {
            let mut s = Sess::new();
            let k = Signer::any(r, "ssh:");
            crate::p_sig::detached(&mut s, r, &k, b"m", "file", "sha512").text()
        }
        6 => {
            let y = crate::p_fido::yu();
            format!("-----BEGIN CERTIFICATE-----\n{}\n-----END CERTIFICATE-----\n", b64(if r.chance(50) { &y.fido_root } else { &y.piv_root }))
        }
        _ => format!("{} {} {}", r.text(d, 20), d.string(r), d.string(r)),
    };
    let mut c: Vec<char> = t.chars().collect();
    let n = r.n(4);
    for _ in 0..n {
        if c.is_empty() {
            break;
        }
        let i = r.n(c.len());
        match r.n(7) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, r.uchar()),
            2 => c[i] = r.uchar(),
            3 => c.truncate(i),
            4 => {
                let w: Vec<char> = d.string(r).chars().collect();
                c.splice(i..i, w);
            }
            5 => {
                let j = r.n(c.len());
                let (i, j) = (i.min(j), i.max(j));
                c.drain(i..j);
            }
            _ => c[i] = *r.pick(&[' ', '\n', '"', '=', ',', '\r', '\0', '\t', '-', '\u{feff}', 'é', '0']),
        }
    }
    c.into_iter().collect()
}
pub fn c17(r: &mut Rng, d: &Dict) -> Sess {
    REC.with(|c| *c.borrow_mut() = Some(vec![]));
    if r.chance(25) {
        let g = *r.pick(&ALL);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(r, d)));
    } else {
        let n = r.range(1, 4);
        for _ in 0..n {
            if r.chance(65) {
                let b = base(r, d);
                let b = mangle(r, d, &b);
                feed(r, d, &b);
            } else {
                let t = junk_text(r, d);
                feed_text(r, d, &t);
            }
        }
    }
    recorded()
}
fn recorded() -> Sess {
    let v = REC.with(|c| c.borrow_mut().take()).unwrap_or_default();
    let mut s = Sess::new();
    for c in v {
        s.calls += 1;
        let mut f = vec![("what", q(&c.op)), ("st", q(c.st)), ("ms", c.ms.to_string()), ("maxms", "20000".to_string())];
        if !c.input.is_empty() {
            f.push(("input", arr(&c.input)));
        }
        s.push("any", &f);
        s.expect(c.st != "panic" && c.ms <= 20000);
    }
    s
}
/// an input of MC_Wild, at every entry point
pub fn wild(v: &serde_json::Value, r: &mut Rng, d: &Dict) -> Sess {
    REC.with(|c| *c.borrow_mut() = Some(vec![]));
    let b = crate::scen::bytes(&v["b"]);
    feed(r, d, &b);
    feed_text(r, d, &armor(&b, crate::p_sig::SB, crate::p_sig::SE, 70, "\n"));
    feed_text(r, d, &armor(&b, BEGIN, END, 70, "\n"));
    // under the name it gives itself
    let n = b.get(3).map(|n| *n as usize).unwrap_or(0);
    if let Some(name) = b.get(4..4 + n).and_then(|x| std::str::from_utf8(x).ok()) {
        feed_text(r, d, &format!("{name} {} c", b64(&b)));
        feed_text(r, d, &format!("someone {name} {}", b64(&b)));
    }
    recorded()
}
