//! Scenarios explored by TLC on the small models, replayed into the library.
//! Each carries the outcome the model demands; a session whose real outcome
//! differs is recorded and judged by the specification.
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::p_build::*;
use crate::rng::Rng;
use crate::wire::*;
use serde_json::Value;

pub struct Scen {
    pub model: String,
    pub s: Value,
}
pub fn load(path: &str) -> Vec<Scen> {
    if path.is_empty() {
        return vec![];
    }
    std::fs::read_to_string(path)
        .expect("scenarios")
        .lines()
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("scenario");
            Scen { model: v["model"].as_str().unwrap().into(), s: v["s"].clone() }
        })
        .collect()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn utf(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
pub fn texts(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(utf).collect()).unwrap_or_default()
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}

pub fn replay(c: &Scen, r: &mut Rng, d: &Dict) -> Sess {
    match c.model.as_str() {
        "Signers" => signers(&c.s),
        "Why" => crate::p_why::replay(&c.s, r),
        "File" => file(&c.s),
        "Issue" => issue(&c.s, r, d),
        "Build" => build(&c.s, r, d),
        "Sig" => sig(&c.s, r, d),
        "Cert" => cert_wire(&c.s, r, d),
        "Read" => read(&c.s),
        "Write" => write(&c.s),
        "Keys" => keys(&c.s, r),
        "Names" => names(&c.s),
        "Priv" => private(&c.s, r),
        "Calendar" => calendar(&c.s, r),
        "Clock" => clock(&c.s, r),
        "Auth" => auth_data(&c.s),
        "Der" => der(&c.s, r, d),
        "X509" => x509(&c.s),
        "Fresh" => crate::p_misc::fresh_run(&c.s, r),
        #[cfg(feature = "token")]
        "Token" => crate::p_token::history(&c.s, r, d),
        #[cfg(feature = "token")]
        "Ctap" => crate::p_hid::history(&c.s, r, d),
        "Asks" => crate::p_misc::asks(&c.s, r, d),
        "Wild" => crate::p_misc::wild(&c.s, r, d),
        "Pretty" => pretty(&c.s, r, d),
        "Create" => crate::p_priv::holder(&c.s, r, d),
        "Memory" => crate::p_misc::history(&c.s, r, d),
        "Piv" | "Fido" => crate::p_fido::chain(&c.s, r, d),
        x => panic!("no replay for model {x} {} {}", r.n(2), d.ints.len()),
    }
}

fn instant(v: &Value) -> Option<i64> {
    v.as_array().filter(|a| !a.is_empty()).map(|a| a[0][0].as_i64().unwrap() * 86400 + a[0][1].as_i64().unwrap())
}
fn signers(v: &Value) -> Sess {
    let mut s = Sess::new();
    let t = st(&v["t"]);
    let mut seen = vec![];
    let o = crate::p_allow::as_line(&mut s, t, &mut seen);
    let ok = match (st(&v["st"]), &o) {
        ("any", _) => true,
        ("err", None) => true,
        ("ok", Some(e)) => {
            let ns = v["ns"].as_array().filter(|a| !a.is_empty()).map(|a| texts(&a[0]));
            e.principals == texts(&v["pr"]) && e.cert_authority == v["ca"].as_bool().unwrap() && e.namespaces == ns && e.valid_after == instant(&v["va"]) && e.valid_before == instant(&v["vb"])
        }
        _ => false,
    };
    s.expect(ok);
    if let (Some(e), "ok") = (&o, st(&v["st"])) {
        crate::p_allow::print_back(&mut s, e, &mut seen);
    }
    crate::p_allow::zone_for(&mut s, &seen);
    s
}

fn file(v: &Value) -> Sess {
    let mut s = Sess::new();
    let ls: Vec<&str> = v["l"].as_array().unwrap().iter().map(st).collect();
    let want: Vec<Vec<String>> = v["e"].as_array().unwrap().iter().map(texts).collect();
    let bad = int(&v["bad"]);
    let mut seen = vec![];
    for (nl, last) in [("\n", true), ("\r\n", true), ("\n", false)] {
        let mut t = ls.join(nl);
        if last && !ls.is_empty() {
            t += nl;
        }
        let o = crate::p_allow::as_file(&mut s, &t, nl == "\r\n" && bad == 0, &mut seen);
        let ok = match o {
            Ok(e) => bad == -1 && e.iter().map(|x| x.principals.clone()).collect::<Vec<_>>() == want,
            Err(n) => n == bad,
        };
        s.expect(ok);
    }
    crate::p_allow::zone_for(&mut s, &seen);
    s
}

/// three signers that are all different, and a subject
fn cast(r: &mut Rng, d: &Dict) -> (Vec<Signer>, PubM) {
    let mut ks: Vec<Signer> = vec![];
    while ks.len() < 3 {
        let a = app(r, d);
        // often of one type, so that only the key itself tells them apart
        let k = match ks.first() {
            Some(f) if r.chance(60) => {
                let kt = f.pk.kt.clone();
                (0..40).map(|_| Signer::any(r, &a)).find(|k| k.pk.kt == kt).unwrap_or_else(|| Signer::any(r, &a))
            }
            _ => Signer::any(r, &a),
        };
        if ks.iter().all(|x| x.pk != k.pk) {
            ks.push(k);
        }
    }
    (ks, any_pub(r, d))
}
fn issue(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let (ks, subject) = cast(r, d);
    let Some(mut b) = b_new(&mut s, r, d, &subject, &ks[0].pk) else { return s };
    b_put(&mut s, &mut b, "serial", Val::Int(1));
    // what the exported bytes say
    let mut signed: Option<crate::certgen::CertM> = None;
    for e in v.as_array().unwrap() {
        let want = st(&e["st"]) == "ok";
        match st(&e["a"]) {
            "set" => {
                let x = st(&e["v"]).to_string();
                let f = st(&e["f"]);
                let val = match f {
                    "serial" => Val::Int(x.parse().unwrap()),
                    "pr" | "id" => Val::Text(x),
                    "prs" => Val::Texts(vec![]),
                    "cr" | "ex" => Val::Opt("c".into(), x),
                    "crs" | "exs" => Val::Opts(vec![]),
                    "va" | "vb" => Val::Int(x.parse().unwrap()),
                    "rs" => Val::Blob(x.into_bytes()),
                    "ct" => Val::Role(x.parse().unwrap()),
                    _ => Val::Key(ks[x.parse::<usize>().unwrap() - 1].pk.clone()),
                };
                b_put(&mut s, &mut b, f, val);
            }
            a @ ("sign" | "add") => {
                let ca = ks.iter().find(|k| k.pk == b.m.ca).unwrap().clone();
                let by = st(&e["by"]).to_string();
                let (b0, old) = (b.clone(), b.sig.clone());
                let (k1, k2) = (ks[0].clone(), ks[1].clone());
                let mut answer = |s: &mut Sess, got: &[u8]| -> Option<Vec<u8>> {
                    match by.as_str() {
                        "k1" => Some(s.sign(r, &k1, got)),
                        "k2" => Some(s.sign(r, &k2, got)),
                        "late" => {
                            let mut o = b0.clone();
                            o.m.serial = if o.m.serial == 1 { 2 } else { 1 };
                            let t = o.tbs();
                            Some(s.sign(r, &ca, &t))
                        }
                        "same" => Some(old.clone()).filter(|x| !x.is_empty()),
                        "junk" => Some(vec![1, 2, 3]),
                        "empty" => Some(vec![]),
                        _ => None,
                    }
                };
                let ok = if a == "sign" {
                    b_sign(&mut s, &mut b, Some(want), answer)
                } else {
                    let t = b.tbs();
                    let g = answer(&mut s, &t).unwrap_or_default();
                    b_addsig(&mut s, &mut b, &g, Some(want))
                };
                if ok {
                    signed = Some(b.m.clone());
                }
            }
            "load" => {
                let tail = sb(&b.sig).len();
                let un = b.ser[..b.ser.len().saturating_sub(tail)].to_vec();
                let bytes = match st(&e["how"]) {
                    "as is" => b.ser.clone(),
                    "resigned" => {
                        let g = s.sign(r, &ks[2], &un);
                        [un, sb(&g)].concat()
                    }
                    "unsigned" => un,
                    "cut" => b.ser[..b.ser.len().saturating_sub(1)].to_vec(),
                    "moved" => [b.tbs(), sb(&b.sig)].concat(),
                    _ => {
                        let mut m = signed.clone().unwrap_or(b.m.clone());
                        m.serial = 7;
                        let x = B { m, ..b.clone() };
                        [x.tbs(), sb(&b.sig)].concat()
                    }
                };
                let c = if r.chance(50) { s.cert_bytes(&bytes) } else { s.cert_text(&format!("{} {}", b.m.kt, b64(&bytes)), r.chance(3), None) };
                s.expect(c.is_some() == want);
                if let (Some(c), Some(m)) = (c, &signed) {
                    let at = s.ev.len();
                    b = b_load(&mut s, &c, m, at);
                    b_get(&mut s, &b);
                }
            }
            _ => {
                let c = b_clone(&mut s, &b);
                b_put(&mut s, &mut b, "serial", Val::Int(99));
                b_put(&mut s, &mut b, "pr", Val::Text("z".into()));
                b = c;
                b_get(&mut s, &b);
            }
        }
    }
    b_get(&mut s, &b);
    if r.chance(10) {
        b_tbs(&mut s, &b);
    }
    s
}

fn build(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let k = if r.chance(90) { Signer::ed(r) } else { Signer::any(r, "ssh:") };
    let subject = if r.chance(80) { Signer::ed(r).pk } else { any_pub(r, d) };
    let Some(mut b) = b_new(&mut s, r, d, &subject, &k.pk) else { return s };
    for e in v.as_array().unwrap() {
        let f = st(&e["f"]);
        let x = st(&e["v"]).to_string();
        let val = match f {
            "serial" => Val::Int(x.parse().unwrap()),
            "pr" => Val::Text(x),
            "prs" => Val::Texts(e["v"].as_array().unwrap().iter().map(|x| st(x).to_string()).collect()),
            "cr" | "ex" => Val::Opt(st(&e["k"]).into(), x),
            _ => Val::Opts(e["v"].as_array().unwrap().iter().map(|x| (st(&x[0]).to_string(), st(&x[1]).to_string())).collect()),
        };
        b_put(&mut s, &mut b, f, val);
    }
    b_sign(&mut s, &mut b, Some(true), |s, x| Some(s.sign(r, &k, x)));
    let t = b_text(&mut s, &b);
    let c = s.cert_text(&t, false, Some(b.h));
    s.expect(c.map(|c| b.m.matches(&c) && c.signature == b.sig && c.serialized == b.ser).unwrap_or(false));
    s
}

fn pretty(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let of = |kt: &str, r: &mut Rng| match kt {
        "ssh-rsa" => {
            let l: Vec<&RsaKey> = fx().rsa.iter().filter(|k| k.bits == 2048).collect();
            Signer::rsa_of(l[r.n(l.len())])
        }
        "ecdsa-sha2-nistp256" => Signer::ec(r, "nistp256"),
        "ecdsa-sha2-nistp384" => Signer::ec(r, "nistp384"),
        "ecdsa-sha2-nistp521" => Signer::ec(r, "nistp521"),
        "ssh-ed25519" => Signer::ed(r),
        "sk-ssh-ed25519@openssh.com" => Signer::ed_sk(r, "ssh:"),
        _ => Signer::ec_sk(r, "ssh:"),
    };
    let kt = PLAIN.iter().find(|p| cert_name(p) == st(&v["kt"])).unwrap();
    let subject = of(kt, r).pk;
    let ca = of(st(&v["cak"]), r);
    let Some(mut b) = b_new(&mut s, r, d, &subject, &ca.pk) else { return s };
    let num = |x: &Value| u64::from_be_bytes(bytes(x).try_into().unwrap());
    let opts = |x: &Value| -> Vec<(String, String)> { x.as_array().unwrap().iter().map(|o| (utf(&o[0]), utf(&o[1]))).collect() };
    b_put(&mut s, &mut b, "ct", Val::Role(int(&v["ct"]) as u32));
    b_put(&mut s, &mut b, "id", Val::Text(utf(&v["id"])));
    for f in ["serial", "va", "vb"] {
        b_put(&mut s, &mut b, f, Val::Int(num(&v[f])));
    }
    b_put(&mut s, &mut b, "prs", Val::Texts(texts(&v["pr"])));
    b_put(&mut s, &mut b, "crs", Val::Opts(opts(&v["cr"])));
    b_put(&mut s, &mut b, "exs", Val::Opts(opts(&v["ex"])));
    b_pretty(&mut s, &b);
    let t = b.tbs();
    let sig = s.sign(r, &ca, &t);
    if b_addsig(&mut s, &mut b, &sig, Some(true)) {
        let txt = b_text(&mut s, &b);
        if let Some(c) = s.cert_text(&txt, false, Some(b.h)) {
            let at = s.ev.len();
            let b2 = b_load(&mut s, &c, &b.m, at);
            b_pretty(&mut s, &b2);
        }
    }
    s
}

fn named(k: &str, r: &mut Rng, app: &str) -> Signer {
    match k {
        "rsa" => Signer::rsa(r),
        "p256" => Signer::ec(r, "nistp256"),
        "p384" => Signer::ec(r, "nistp384"),
        "ed" => Signer::ed(r),
        "edsk" => Signer::ed_sk(r, app),
        _ => Signer::ec_sk(r, app),
    }
}
/// the same key material with or without an application
fn other_form(p: &PubM, app: &str) -> PubM {
    let (kt, n) = match p.kt.as_str() {
        "ssh-ed25519" => ("sk-ssh-ed25519@openssh.com", 1),
        "sk-ssh-ed25519@openssh.com" => ("ssh-ed25519", 1),
        "ecdsa-sha2-nistp256" => ("sk-ecdsa-sha2-nistp256@openssh.com", 2),
        _ => ("ecdsa-sha2-nistp256", 2),
    };
    let mut q = p.p[..n].to_vec();
    if is_sk(kt) {
        q.push(app.as_bytes().to_vec());
    }
    PubM { kt: kt.into(), p: q }
}
fn sig(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    use crate::p_sig::*;
    let mut s = Sess::new();
    let c = &v["c"];
    let g = |f: &str| st(&c[f]).to_string();
    let app = app(r, d);
    let appx = format!("{app}x");
    let h = g("h");
    let k = named(&h, r, &app);
    let other = loop {
        let o = named(&h, r, &app);
        if o.pk != k.pk {
            break o;
        }
    };
    let sk = is_sk(&k.pk.kt);
    let which = |w: &str| match w {
        "other" => other.pk.clone(),
        "other app" => {
            let mut p = k.pk.clone();
            *p.p.last_mut().unwrap() = appx.clone().into_bytes();
            p
        }
        "other form" => other_form(&k.pk, &app),
        _ => k.pk.clone(),
    };
    let mut m = r.text(d, 20).into_bytes();
    m.push(b'm');
    let msg = |w: &str| match w {
        "m" => m.clone(),
        "n" => [&m[..m.len() - 1], &b"n"[..]].concat(),
        "" => vec![],
        _ => [&m[..], &m[..]].concat(),
    };
    let base = namespace(r, d);
    let ns = |w: &str| match w {
        "file" => format!("{base}e"),
        "fil" => base.clone(),
        "" => String::new(),
        _ => format!("{base}g"),
    };
    let (fl, ctr) = (r.byte_pool(d), r.u32_pool(d));
    let ha = g("ha");
    let data0 = signed_data(&ns("file"), b"", &ha, &sha(&ha, &m));
    let own_scheme = match g("alg").as_str() {
        "rsa1" => "ssh-rsa",
        "rsa256" => "rsa-sha2-256",
        "rsa512" => "rsa-sha2-512",
        _ => "",
    };
    // the signature blob over the given bytes
    let made = |s: &mut Sess, r: &mut Rng, data: &[u8]| -> Vec<u8> {
        for a in [&app, &appx] {
            s.hash("sha256", a.as_bytes());
        }
        s.hash("sha256", data);
        let (a, f2, c2) = (app.as_bytes(), fl ^ 4, ctr ^ 1);
        let really = match g("signed").as_str() {
            "unwrapped" if sk => data.to_vec(),
            "unwrapped" => sk_msg(a, fl, ctr, data),
            "other app" => sk_msg(appx.as_bytes(), fl, ctr, data),
            "other flags" => sk_msg(a, f2, ctr, data),
            "other ctr" => sk_msg(a, fl, c2, data),
            "unhashed" => [sha("sha256", a), vec![fl], ctr.to_be_bytes().to_vec(), data.to_vec()].concat(),
            _ if sk => sk_msg(a, fl, ctr, data),
            _ => data.to_vec(),
        };
        let mut raw = k.raw(own_scheme, &really);
        let ec = matches!(k.sk, Sk::Ec(_));
        while ec && raw.sig[0] < 128 {
            raw = k.raw(own_scheme, &really);
        }
        s.fact(&raw);
        let x = raw.sig;
        let n = x.len() / 2;
        let body = if ec {
            let (p, q) = (&x[..n], &x[n..]);
            match g("body").as_str() {
                "cut" => W::new().mp(p),
                "more" => W::new().mp(p).mp(q).raw(&[1]),
                "padded" => W::new().b(&[vec![0, 0], p.to_vec()].concat()).mp(q),
                "raw" => W::new().b(p).b(q),
                "swapped" => W::new().mp(q).mp(p),
                "empty" => W::new(),
                "other" => {
                    let mut o = p.to_vec();
                    o[n - 1] ^= 1 << r.n(8);
                    W::new().mp(&o).mp(q)
                }
                _ => W::new().mp(p).mp(q),
            }
            .0
        } else {
            let i = r.n(x.len());
            match g("body").as_str() {
                "cut" => x[..x.len() - 1].to_vec(),
                "more" => [x, vec![0]].concat(),
                "padded" => [vec![0], x].concat(),
                "raw" => sb(&x),
                "swapped" => [vec![x[0] ^ 1], x[1..].to_vec()].concat(),
                "empty" => vec![],
                "other" => x.iter().enumerate().map(|(j, b)| if i == j { b ^ (1 << r.n(8)) } else { *b }).collect(),
                _ => x,
            }
        };
        let own = if sk { W::new().raw(&[fl]).u32(ctr).0 } else { vec![] };
        let tail = match g("tail").as_str() {
            "flags" => W::new().raw(&[f2]).u32(ctr).0,
            "ctr" => W::new().raw(&[fl]).u32(c2).0,
            "none" => vec![],
            "short" => [vec![fl], ctr.to_be_bytes()[..3].to_vec()].concat(),
            "long" => [own, vec![7, 7, 7, 7, 7]].concat(),
            _ => own,
        };
        W::new().s(&g("name")).b(&body).raw(&tail).0
    };
    let sg = made(&mut s, r, &data0);
    let bha = match g("bha").as_str() {
        "own" => ha.clone(),
        "flip" => (if ha == "sha256" { "sha512" } else { "sha256" }).to_string(),
        x => x.to_string(),
    };
    let f = SigM { magic: g("magic").into_bytes(), ver: int(&c["ver"]) as u32, key: which(&g("key")).enc(), ns: ns(&g("bns")), rsv: g("rsv").into_bytes(), ha: bha, sig: sg };
    let t = match g("armor").as_str() {
        "w64" => armor(&f.bytes(), SB, SE, 64, "\n"),
        "noend" => format!("{SB}\n{}\n", b64(&f.bytes())),
        "nobegin" => format!("{}\n{SE}", b64(&f.bytes())),
        "lead" => format!("\n{}", f.text()),
        "after" => format!("{}\njunk\n{SE}\n", f.text()),
        "text" => f.text().replace(SE, &format!("junk!\n{SE}")),
        _ => f.text(),
    };
    let pk = Some(g("pk")).filter(|x| x != "none").map(|w| {
        let mut k = which(&w).ssh();
        if r.chance(30) {
            k.comment = Some("c".into());
        }
        k
    });
    let ok = s.sig_verify(&t, &msg(&g("msg")), &ns(&g("ns")), pk.as_ref());
    s.expect(ok == v["sig"].as_bool().unwrap());
    let p = s.sig_parse(&t);
    s.expect(p.is_some() == v["parse"].as_bool().unwrap());
    // the same signature in a certificate
    let frame = ["bns", "bha", "ver", "magic", "rsv", "armor", "msg", "ns", "pk"].iter().any(|f| {
        let d = match *f {
            "bns" | "ns" => "file",
            "bha" => "own",
            "magic" => "SSHSIG",
            "rsv" | "ver" => "",
            "armor" => "ok",
            "msg" => "m",
            _ => "none",
        };
        g(f) != d
    }) || int(&c["ver"]) != 1;
    if !frame {
        let m = cert(r, d, &which(&g("key")));
        let (tbs, _) = m.tbs();
        let sg = made(&mut s, r, &tbs);
        let o = s.cert_bytes(&[tbs, sb(&sg)].concat());
        s.expect(o.is_some() == v["cert"].as_bool().unwrap());
    }
    s
}

fn cert_wire(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let kind = st(&v["kind"]);
    let plain = ALL_TYPES.iter().find(|p| !p.contains("-cert-") && !p.starts_with("rsa") && cert_name(p) == kind).unwrap();
    let mut subject = pub_of(r, d, plain);
    if fam(plain) == "ecdsa" {
        let own = subject.p[0].clone();
        subject.p[0] = match st(&v["crv"]) {
            "own" => own,
            "other" => (if own == b"nistp256" { &b"nistp384"[..] } else { &b"nistp256"[..] }).to_vec(),
            "upper" => b"NISTP256".to_vec(),
            _ => vec![],
        };
    }
    let (ks, _) = cast(r, d);
    let cab = match st(&v["ca"]) {
        "extra" => [ks[0].pk.enc(), vec![1]].concat(),
        "cut" => {
            let mut e = ks[0].pk.enc();
            e.pop();
            e
        }
        "cert" => W::new().s(&cert_name(&ks[0].pk.kt)).raw(&ks[0].pk.data()).0,
        "none" => vec![],
        "unknown" => W::new().s("ssh-ed448").raw(&ks[0].pk.data()).0,
        _ => ks[0].pk.enc(),
    };
    let raw = |f: &str| bytes(&v["raw"][f]);
    let make = |serial: &[u8], nonce: bool| {
        let mut w = W::new().b(&bytes(&v["typ"]));
        if nonce {
            w = w.b(&raw("nonce"));
        }
        w.raw(&subject.data()).raw(serial).raw(&raw("role")).b(&raw("id")).b(&raw("pr")).raw(&raw("va")).raw(&raw("vb")).b(&raw("cr")).b(&raw("ex")).b(&raw("rs")).b(&cab).0
    };
    let t = make(&raw("serial"), true);
    s.x(&t);
    let sg = match st(&v["sig"]) {
        "own" => s.sign(r, &ks[0], &t),
        "other key" => s.sign(r, &ks[1], &t),
        "other bytes" => s.sign(r, &ks[0], &t[..t.len() - 1]),
        "empty" => vec![],
        "unsigned nonce" => {
            let u = make(&raw("serial"), false);
            s.sign(r, &ks[0], &u)
        }
        "twice" => s.sign(r, &ks[0], &[t.clone(), t.clone()].concat()),
        "other serial" => {
            let mut o = raw("serial");
            o[r.n(8)] ^= 1 << r.n(8);
            let u = make(&o, true);
            s.sign(r, &ks[0], &u)
        }
        _ => {
            let mut g = s.sign(r, &ks[0], &t);
            g.pop();
            g
        }
    };
    let g = sb(&sg);
    let w = match st(&v["end"]) {
        "extra" => [&t[..], &g[..], &[0]].concat(),
        "cut1" => [&t[..], &g[..g.len() - 1]].concat(),
        "cut all" => t.clone(),
        "no sig" => [&t[..], &[0, 0, 0, 0]].concat(),
        _ => [&t[..], &g[..]].concat(),
    };
    let c = if r.chance(70) { s.cert_bytes(&w) } else { s.cert_text(&format!("{kind} {}", b64(&w)), false, None) };
    let num = |f: &str| u64::from_be_bytes(raw(f).try_into().unwrap());
    let map = |f: &str| -> std::collections::HashMap<String, String> { v[f].as_array().unwrap().iter().map(|o| (utf(&o[0]), utf(&o[1]))).collect() };
    let ok = match (v["ok"].as_bool().unwrap(), &c) {
        (false, None) => true,
        (true, Some(c)) => {
            c.nonce == raw("nonce")
                && c.serial == num("serial")
                && c.cert_type as u32 as u8 == raw("role")[3]
                && c.key_id.as_bytes() == raw("id")
                && c.principals == texts(&v["pr"])
                && c.valid_after == num("va")
                && c.valid_before == num("vb")
                && c.critical_options == map("cr")
                && c.extensions == map("ex")
                && c.reserved == raw("rs")
                && c.signature == sg
                && c.serialized == w
        }
        _ => false,
    };
    s.expect(ok);
    s
}

const READS: [(&str, usize); 11] = [("bytes", 0), ("string", 0), ("mpint", 0), ("u32", 0), ("u64", 0), ("cstring", 0), ("raw", 0), ("raw", 1), ("raw", 3), ("raw", 4), ("raw", 9)];
fn read(v: &Value) -> Sess {
    let mut s = Sess::new();
    let b = bytes(&v["b"]);
    let mut rd = s.r_new(&b);
    for i in v["p"].as_array().unwrap() {
        let (k, n) = READS[int(i) as usize - 1];
        let ok = s.r_read(&mut rd, k, n);
        s.expect(ok);
    }
    let at = int(&v["o"]) as usize;
    for (i, w) in v["r"].as_array().unwrap().iter().enumerate() {
        if i > 0 {
            s.r_set(&mut rd, at);
        }
        let (k, n) = READS[i];
        let ok = s.r_read(&mut rd, k, n);
        let good = w["ok"].as_bool().unwrap();
        s.expect(ok == good && (!ok || rd.at() == int(&w["o"]) as usize));
    }
    s
}
fn write(v: &Value) -> Sess {
    use crate::api::callv;
    use sshcerts::ssh::Writer;
    let mut s = Sess::new();
    let h = s.h();
    let mut w = Writer::new();
    s.push("w_new", &[("h", h.to_string()), ("out", arr(w.as_bytes()))]);
    for e in v["w"].as_array().unwrap() {
        let (k, x) = (st(&e["k"]), &e["v"]);
        let val = match k {
            "strings" => arrs(&texts(x)),
            "map" => format!("[{}]", x.as_array().unwrap().iter().map(|o| format!("[{},{}]", arr(&bytes(&o[0])), arr(&bytes(&o[1])))).collect::<Vec<_>>().join(",")),
            _ => arr(&bytes(x)),
        };
        s.calls += 1;
        let ok = callv("w_write", k.as_bytes(), || match k {
            "cstring" => w.write_cstring(&utf(x)),
            "bytes" => w.write_bytes(&bytes(x)),
            "string" => w.write_string(&utf(x)),
            "raw" => w.write_raw_bytes(&bytes(x)),
            "u32" => w.write_u32(u32::from_be_bytes(bytes(x).try_into().unwrap())),
            "u64" => w.write_u64(u64::from_be_bytes(bytes(x).try_into().unwrap())),
            "mpint" => w.write_mpint(&bytes(x)),
            "strings" => w.write_string_vec(&texts(x)),
            _ => w.write_string_map(&x.as_array().unwrap().iter().map(|o| (utf(&o[0]), utf(&o[1]))).collect()),
        })
        .is_ok();
        s.push("w_write", &[("h", h.to_string()), ("k", q(k)), ("v", val), ("out", arr(w.as_bytes()))]);
        s.expect(ok);
    }
    let out = w.into_bytes();
    s.expect(out == bytes(&v["out"]));
    let mut rd = s.r_new(&out);
    for e in v["w"].as_array().unwrap() {
        let k = match st(&e["k"]) {
            "strings" | "map" => "bytes",
            k => k,
        };
        if k == "raw" && bytes(&e["v"]).is_empty() {
            continue;
        }
        let n = if k == "raw" { bytes(&e["v"]).len() } else { 0 };
        let ok = s.r_read(&mut rd, k, n);
        s.expect(ok);
    }
    s
}

pub fn points(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}
fn keys(v: &Value, r: &mut Rng) -> Sess {
    let mut s = Sess::new();
    let same = |w: &Value, k: &Option<sshcerts::PublicKey>| match (w["ok"].as_bool().unwrap(), k) {
        (false, None) => true,
        (true, Some(k)) => {
            let m = crate::api::pub_m(k);
            m.kt == st(&w["kt"]) && m.p == w["p"].as_array().unwrap().iter().map(bytes).collect::<Vec<_>>() && k.comment == w["cm"].as_array().unwrap().first().map(utf)
        }
        _ => false,
    };
    let k = crate::p_pub::line(&mut s, &points(&v["t"]), r.chance(5));
    s.expect(same(&v["line"], &k));
    let b = crate::p_pub::blob(&mut s, &bytes(&v["b"]));
    s.expect(same(&v["blob"], &b));
    if let Some(k) = k {
        s.pub_views(&k);
    }
    s
}
fn names(v: &Value) -> Sess {
    let mut s = Sess::new();
    let t = points(&v["t"]);
    match st(&v["w"]) {
        "kt" => {
            let k = crate::p_wire::kt(&mut s, &t);
            s.expect(k.is_some() == v["ok"].as_bool().unwrap());
        }
        "curve" => crate::p_wire::curve(&mut s, &t),
        _ => crate::p_wire::role(&mut s, &t),
    }
    s
}

/// the real stream for a passphrase, salt and rounds (kept: it is slow)
fn stream(s: &mut Sess, pass: &str, salt: &[u8], rounds: u32, log: bool) -> Option<Vec<u8>> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static SEEN: RefCell<HashMap<(String, Vec<u8>, u32), Option<Vec<u8>>>> = RefCell::new(HashMap::new()));
    let ks = SEEN.with(|m| m.borrow_mut().entry((pass.into(), salt.to_vec(), rounds)).or_insert_with(|| crate::p_priv::keystream(pass, salt, rounds, 512)).clone());
    if let (true, Some(k)) = (log, &ks) {
        s.know_stream(pass, salt, rounds, k);
    }
    ks
}
fn private(v: &Value, r: &mut Rng) -> Sess {
    let mut s = Sess::new();
    let (head, mut body) = (bytes(&v["head"]), bytes(&v["body"]));
    let given = v["given"].as_array().unwrap().first().map(utf);
    if v["enc"].as_bool().unwrap() {
        let ks = stream(&mut s, &utf(&v["right"]), &bytes(&v["salt"]), 1, false).unwrap();
        let n = int(&v["plain"]) as usize;
        for i in 0..n.min(body.len()) {
            body[i] ^= ks[i];
        }
    }
    let opts = bytes(&v["opts"]);
    if let (Some(p), true) = (&given, opts.len() >= 8) {
        let n = u32::from_be_bytes(opts[..4].try_into().unwrap()) as usize;
        if opts.len() >= 8 + n {
            let rounds = u32::from_be_bytes(opts[4 + n..8 + n].try_into().unwrap());
            stream(&mut s, p, &opts[4..4 + n], rounds, true);
        }
    }
    let b = W::new().raw(&head).b(&body).0;
    let sh = &v["shape"];
    let part = |x: &str| utf(&sh[x]);
    let t = part("lead") + &armor(&b, &part("begin"), &part("end"), int(&sh["width"]) as usize, &part("eol")) + &part("tail");
    let (st0, k) = s.priv_parse(&t, given.as_deref(), r.chance(3));
    let ok = st0 == st(&v["st"])
        && match (&k, v["key"].as_array().unwrap().first()) {
            (None, None) => true,
            (Some(k), Some(w)) => {
                let list = |x: &Value| x.as_array().unwrap().iter().map(bytes).collect::<Vec<_>>();
                let m = crate::p_priv::PrivM {
                    pk: PubM { kt: st(&w["kt"]).into(), p: list(&w["p"]) },
                    sec: list(&w["sec"]),
                    magic: u32::from_be_bytes(bytes(&w["magic"]).try_into().unwrap()),
                    cm: utf(&w["cm"]),
                };
                m.matches(k)
            }
            _ => false,
        };
    s.expect(ok);
    if let Some(k) = k {
        s.priv_views(&k);
    }
    s
}

const ONE_KEY: &str = "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAAQE=";
/// one stamp through the parser: what it was read as
fn stamped(s: &mut Sess, t: &str, r: &mut Rng, seen: &mut Vec<String>) -> Option<i64> {
    let after = r.chance(50);
    let q = if r.chance(20) { "\"" } else { "" };
    let line = format!("x {}={q}{t}{q} {ONE_KEY}", if after { "valid-after" } else { "valid-before" });
    let e = crate::p_allow::as_line(s, &line, seen)?;
    s.expect(if after { e.valid_before.is_none() } else { e.valid_after.is_none() });
    if after { e.valid_after } else { e.valid_before }
}
fn calendar(v: &Value, r: &mut Rng) -> Sess {
    let mut s = Sess::new();
    let mut seen = vec![];
    let (y, m, first, n) = (int(&v["y"]), int(&v["m"]), int(&v["first"]), int(&v["n"]));
    for d in 0..=40 {
        let (h, mi, x) = ((7 * d) % 24, (13 * d) % 60, (29 * d) % 60);
        let day = (first + d - 1) * 86400;
        let (t, at) = match r.n(3) {
            0 => (format!("{y:04}{m:02}{d:02}Z"), day),
            1 => (format!("{y:04}{m:02}{d:02}{h:02}{mi:02}Z"), day + h * 3600 + mi * 60),
            _ => (format!("{y:04}{m:02}{d:02}{h:02}{mi:02}{x:02}Z"), day + h * 3600 + mi * 60 + x),
        };
        let o = stamped(&mut s, &t, r, &mut seen);
        s.expect(o == if d >= 1 && d <= n { Some(at) } else { None });
    }
    for m in [0, 13, 20, 99] {
        let o = stamped(&mut s, &format!("{y:04}{m:02}01Z"), r, &mut seen);
        s.expect(o.is_none());
    }
    crate::p_allow::zone_for(&mut s, &seen);
    s
}
fn clock(v: &Value, r: &mut Rng) -> Sess {
    let mut s = Sess::new();
    let mut seen = vec![];
    let at = |x: &Value| x.as_array().unwrap().iter().map(|i| int(&i[0]) * 86400 + int(&i[1])).collect::<Vec<_>>();
    let (must, may) = (at(&v["must"]), at(&v["may"]));
    let o = stamped(&mut s, &utf(&v["t"]), r, &mut seen);
    s.expect(match o {
        None => must.is_empty(),
        Some(i) => must.contains(&i) || may.contains(&i),
    });
    crate::p_allow::zone_for(&mut s, &seen);
    s
}

fn auth_data(v: &Value) -> Sess {
    let mut s = Sess::new();
    let o = crate::p_fido::auth(&mut s, &bytes(&v["b"]), "ssh:");
    let ok = match (&o, v["out"].as_array().unwrap().first()) {
        (None, None) => true,
        (Some(a), Some(w)) => {
            let c = &a.cose_key;
            let par: Vec<String> = c.parameters.iter().map(|(k, v)| if *k == -1 { v.clone() } else { "?".into() }).collect();
            let ssh = a.ssh_public_key("ssh:").map(|k| k.key_type.name.to_string()).unwrap_or_default();
            c.key == bytes(&w["key"])
                && a.flags as i64 == int(&w["flags"])
                && a.credential_id == bytes(&w["cred"])
                && c.algorithm.to_string() == utf(&w["alt"])
                && c.key_type.to_string() == utf(&w["tyt"])
                && par == texts(&w["par"])
                && ssh == st(&w["ssh"])
        }
        _ => false,
    };
    s.expect(ok);
    s
}
fn der(v: &Value, r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let b = bytes(&v["b"]);
    crate::p_fido::der_rs(&mut s, &b);
    let o = sshcerts::utils::asn_der_to_r_s(&b).map(|(r, s)| (r.to_vec(), s.to_vec()));
    let (ok, open) = (v["ok"].as_bool().unwrap(), v["open"].as_bool().unwrap());
    s.expect(match o {
        None => !ok || open,
        Some(x) => ok && x == (bytes(&v["r"]), bytes(&v["s"])),
    });
    if r.chance(20) {
        let kt = *r.pick(&PLAIN);
        let k = pub_of(r, d, kt);
        if let Ok(k) = sshcerts::PublicKey::from_bytes(&k.enc()) {
            crate::p_fido::fmt_sig(&mut s, &k, &b);
        }
    }
    s
}

fn x509(v: &Value) -> Sess {
    let mut s = Sess::new();
    let op = match st(&v["how"]) {
        "cert" => "x_cert",
        "csr" => "x_csr",
        _ => "x_der",
    };
    let k = v["key"].as_array().unwrap().first().map(|k| PubM { kt: st(&k["kt"]).into(), p: k["p"].as_array().unwrap().iter().map(bytes).collect() });
    crate::p_fido::xkey(&mut s, op, &bytes(&v["b"]), if k.is_some() { "yes" } else { "no" }, k.as_ref());
    s
}
