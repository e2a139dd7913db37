//! The library's entry points, called under observation.
use crate::keys::*;
use crate::log::*;
use crate::refs;
use sshcerts::error::Error;
use sshcerts::ssh::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---- supervision: what each thread is doing, on disk and in memory ----
pub static STARTED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local! {
    static PEND: RefCell<Option<(usize, std::fs::File)>> = const { RefCell::new(None) };
}
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
pub fn supervise(slot: usize, path: &str) {
    let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path).expect("pending file");
    PEND.with(|p| *p.borrow_mut() = Some((slot, f)));
}
fn begin(op: &str, input: &[u8]) {
    PEND.with(|p| {
        if let Some((slot, f)) = &*p.borrow() {
            let mut v = (op.len() as u32).to_be_bytes().to_vec();
            v.extend((input.len() as u32).to_be_bytes());
            v.extend(op.as_bytes());
            v.extend(input);
            let _ = f.write_all_at(&v, 0);
            STARTED[*slot].store(now_ms(), Ordering::Relaxed);
        }
    });
}
fn end() {
    PEND.with(|p| {
        if let Some((slot, f)) = &*p.borrow() {
            let _ = f.write_all_at(&[0, 0, 0, 0], 0);
            STARTED[*slot].store(0, Ordering::Relaxed);
        }
    });
}

pub enum R<T> {
    Ok(T),
    Err(Error),
    Panic,
}
impl<T> R<T> {
    pub fn st(&self) -> String {
        q(match self {
            R::Ok(_) => "ok",
            R::Err(_) => "err",
            R::Panic => "panic",
        })
    }
    pub fn ok(self) -> Option<T> {
        match self {
            R::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, R::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, R::Err(_))
    }
}
// every call of this thread, how it ended and how long it took
pub struct Called {
    pub op: String,
    pub st: &'static str,
    pub ms: u64,
    pub input: Vec<u8>,
}
thread_local! {
    pub static REC: RefCell<Option<Vec<Called>>> = const { RefCell::new(None) };
}
pub fn call<T>(op: &str, input: &[u8], f: impl FnOnce() -> Result<T, Error>) -> R<T> {
    begin(op, input);
    let t0 = std::time::Instant::now();
    let r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => R::Ok(v),
        Ok(Err(e)) => R::Err(e),
        Err(_) => R::Panic,
    };
    end();
    crate::why::note(op, input, if let R::Err(e) = &r { Some(e) } else { None });
    REC.with(|c| {
        if let Some(v) = &mut *c.borrow_mut() {
            let st = match &r {
                R::Ok(_) => "ok",
                R::Err(_) => "err",
                R::Panic => "panic",
            };
            let ms = t0.elapsed().as_millis() as u64;
            let input = if st == "panic" || ms > 5000 { input.to_vec() } else { vec![] };
            v.push(Called { op: op.into(), st, ms, input });
        }
    });
    r
}
pub fn callv<T>(op: &str, input: &[u8], f: impl FnOnce() -> T) -> R<T> {
    call(op, input, || Ok(f()))
}
pub fn callo<T>(op: &str, input: &[u8], f: impl FnOnce() -> Option<T>) -> R<T> {
    call(op, input, || f().ok_or(Error::ParsingError))
}

// ---- rendering of values ----
pub fn pub_m(k: &PublicKey) -> PubM {
    let p = match &k.kind {
        PublicKeyKind::Rsa(x) => vec![x.e.clone(), x.n.clone()],
        PublicKeyKind::Ecdsa(x) => {
            let mut v = vec![x.curve.identifier.as_bytes().to_vec(), x.key.clone()];
            if let Some(a) = &x.sk_application {
                v.push(a.as_bytes().to_vec());
            }
            v
        }
        PublicKeyKind::Ed25519(x) => {
            let mut v = vec![x.key.clone()];
            if let Some(a) = &x.sk_application {
                v.push(a.as_bytes().to_vec());
            }
            v
        }
    };
    PubM { kt: k.key_type.name.to_string(), p }
}
pub fn pub_v(k: &PublicKey) -> &'static str {
    match &k.kind {
        PublicKeyKind::Rsa(_) => "rsa",
        PublicKeyKind::Ecdsa(_) => "ecdsa",
        PublicKeyKind::Ed25519(_) => "ed",
    }
}
pub fn pub_j(k: &PublicKey) -> String {
    let m = pub_m(k);
    format!("{{\"kt\":{},\"v\":\"{}\",\"p\":{},\"cm\":{}}}", q(&m.kt), pub_v(k), arrs(&m.p), opt(k.comment.as_ref().map(|c| arr(c.as_bytes()))))
}
pub fn map_j(m: &HashMap<String, String>) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    format!("[{}]", v.iter().map(|(a, b)| format!("[{},{}]", arr(a.as_bytes()), arr(b.as_bytes()))).collect::<Vec<_>>().join(","))
}
pub fn ct_j(c: &CertType) -> String {
    arr(&(c.clone() as u32).to_be_bytes())
}
pub fn cert_j(s: &mut Sess, c: &Certificate) -> String {
    let ser = s.x(&c.serialized);
    format!(
        "{{\"kt\":{},\"nonce\":{},\"key\":{},\"serial\":{},\"ct\":{},\"id\":{},\"pr\":{},\"va\":{},\"vb\":{},\"cr\":{},\"ex\":{},\"rs\":{},\"ca\":{},\"sig\":{},\"cm\":{},\"ser\":{}}}",
        q(c.key_type.name),
        arr(&c.nonce),
        pub_j(&c.key),
        arr(&c.serial.to_be_bytes()),
        ct_j(&c.cert_type),
        arr(c.key_id.as_bytes()),
        arrs(&c.principals),
        arr(&c.valid_after.to_be_bytes()),
        arr(&c.valid_before.to_be_bytes()),
        map_j(&c.critical_options),
        map_j(&c.extensions),
        arr(&c.reserved),
        pub_j(&c.signature_key),
        arr(&c.signature),
        opt(c.comment.as_ref().map(|c| arr(c.as_bytes()))),
        ser
    )
}
pub fn ha_name(h: &HashAlgorithm) -> &'static str {
    match h {
        HashAlgorithm::Sha256 => "sha256",
        HashAlgorithm::Sha512 => "sha512",
    }
}
pub fn sig_j(x: &SshSignature) -> String {
    format!("\"key\":{},\"ns\":{},\"ha\":{},\"sig\":{}", pub_j(&x.pubkey), arr(x.namespace.as_bytes()), q(ha_name(&x.hash_algorithm)), arr(&x.signature))
}
pub fn priv_sec(k: &PrivateKey) -> (Vec<Vec<u8>>, &'static str) {
    match &k.kind {
        PrivateKeyKind::Rsa(x) => (vec![x.n.clone(), x.e.clone(), x.d.clone(), x.coefficient.clone(), x.p.clone(), x.q.clone()], "rsa"),
        PrivateKeyKind::Ecdsa(x) => (vec![x.key.clone()], "ecdsa"),
        PrivateKeyKind::EcdsaSk(x) => (vec![vec![x.flags], x.handle.clone(), x.reserved.clone()], "ecdsask"),
        PrivateKeyKind::Ed25519(x) => (vec![x.key.clone()], "ed"),
        PrivateKeyKind::Ed25519Sk(x) => (vec![vec![x.flags], x.handle.clone(), x.reserved.clone()], "edsk"),
    }
}
pub fn priv_j(k: &PrivateKey) -> String {
    let (sec, kind) = priv_sec(k);
    format!(
        "{{\"kt\":{},\"pub\":{},\"sec\":{},\"magic\":{},\"cm\":{},\"kind\":{}}}",
        q(k.key_type.name),
        pub_j(&k.pubkey),
        arrs(&sec),
        arr(&k.magic.to_be_bytes()),
        arr(k.comment.as_bytes()),
        q(kind)
    )
}
pub fn inst(t: i64) -> String {
    format!("[{},{}]", t.div_euclid(86400), t.rem_euclid(86400))
}
pub fn entry_j(e: &AllowedSigner) -> String {
    format!(
        "{{\"pr\":{},\"ca\":{},\"ns\":{},\"va\":{},\"vb\":{},\"key\":{}}}",
        arrs(&e.principals),
        e.cert_authority,
        opt(e.namespaces.as_ref().map(|n| arrs(n))),
        opt(e.valid_after.map(inst)),
        opt(e.valid_before.map(inst)),
        pub_j(&e.key)
    )
}

/// "pass through a file": from_path variants are exercised with real files
pub fn with_file<T>(data: &[u8], f: impl FnOnce(&std::path::Path) -> T) -> T {
    let p = std::path::PathBuf::from(format!("{}/f.{:?}", SCRATCH.get().expect("scratch"), std::thread::current().id()));
    std::fs::write(&p, data).expect("scratch file");
    let r = f(&p);
    let _ = std::fs::remove_file(&p);
    r
}
pub static SCRATCH: std::sync::OnceLock<String> = std::sync::OnceLock::new();

// ---- certificates ----
impl Sess {
    pub fn cert_bytes(&mut self, b: &[u8]) -> Option<Certificate> {
        self.calls += 1;
        let r = call("cert_bytes", b, || Certificate::from_bytes(b));
        let x = self.x(b);
        let mut f = vec![("in", x), ("st", r.st())];
        self.cert_facts(b);
        let c = r.ok();
        if let Some(c) = &c {
            f.push(("out", cert_j(self, c)));
        }
        self.push("cert_bytes", &f);
        self.expect(refs::same_cert(c.as_ref(), b, None));
        c
    }
    /// whether the signature in a certificate is valid is settled by ring
    fn cert_facts(&mut self, b: &[u8]) {
        if let Some((m, sig, n)) = refs::ref_cert(b) {
            if crate::p_sig::ref_verify(&m.ca, &sig, &b[..n]) {
                self.witness(&m.ca, &sig, &b[..n]);
            }
        }
    }
    pub fn cert_text(&mut self, t: &str, path: bool, same: Option<usize>) -> Option<Certificate> {
        self.calls += 1;
        let r = call("cert_text", t.as_bytes(), || if path { with_file(t.as_bytes(), |p| Certificate::from_path(p)) } else { Certificate::from_string(t) });
        let x = self.xt(t);
        let mut f = vec![("in", x), ("st", r.st())];
        if let Some(h) = same {
            f.push(("same", h.to_string()));
        }
        if let Some(b) = t.split_whitespace().nth(1).and_then(|x| base64::decode(x).ok()) {
            self.cert_facts(&b);
        }
        let c = r.ok();
        if let Some(c) = &c {
            f.push(("out", cert_j(self, c)));
        }
        self.push("cert_text", &f);
        self.expect(refs::same_cert_text(c.as_ref(), t));
        c
    }
    // ---- detached signatures ----
    pub fn sig_parse(&mut self, t: &str) -> Option<SshSignature> {
        self.calls += 1;
        let r = call("sig_parse", t.as_bytes(), || SshSignature::from_armored_string(t));
        let x = self.xt(t);
        let mut f = vec![("in", x), ("st", r.st())];
        let o = r.ok();
        if let Some(s) = &o {
            f.push(("out", format!("{{{}}}", sig_j(s))));
        }
        self.push("sig_parse", &f);
        self.expect(match (&o, refs::ref_sshsig(t)) {
            (None, None) => true,
            (Some(x), Some(w)) => refs::same_sig(x, &w),
            _ => false,
        });
        o
    }
    /// parse and verify
    pub fn sig_verify(&mut self, t: &str, msg: &[u8], ns: &str, pk: Option<&PublicKey>) -> bool {
        self.calls += 1;
        // the digests the standard calls for
        self.hash("sha256", msg);
        self.hash("sha512", msg);
        let r = call("sig_verify", t.as_bytes(), || {
            let s = SshSignature::from_armored_string(t)?;
            VerifiedSshSignature::from_ssh_signature(msg, s, ns, pk.cloned())
        });
        let want = refs::ref_sigver(t, msg, ns, pk);
        if let Some(w) = &want {
            let data = crate::p_sig::signed_data(ns, b"", &w.2, &sha(&w.2, msg));
            self.witness(&w.0, &w.3, &data);
        }
        let (x, m) = (self.xt(t), self.x(msg));
        let mut f = vec![("in", x), ("msg", m.clone()), ("ns", arr(ns.as_bytes())), ("pk", opt(pk.map(pub_j))), ("st", r.st())];
        let o = r.ok();
        if let Some(s) = &o {
            let om = self.x(&s.message);
            f.push(("out", format!("{{{},\"msg\":{}}}", sig_j(&s.signature), om)));
        }
        self.push("sig_verify", &f);
        self.expect(match (&o, &want) {
            (None, None) => true,
            (Some(x), Some(w)) => refs::same_sig(&x.signature, w) && x.message == msg,
            _ => false,
        });
        o.is_some()
    }
    pub fn sig_new(&mut self, k: &PrivateKey, ns: &str, ha: Option<HashAlgorithm>, msg: &[u8], use_: &str) -> Option<VerifiedSshSignature> {
        self.calls += 1;
        self.hash("sha256", msg);
        self.hash("sha512", msg);
        let han = ha.as_ref().map(|h| q(ha_name(h)));
        let hb = ha.as_ref().map(|h| match h {
            HashAlgorithm::Sha256 => HashAlgorithm::Sha256,
            HashAlgorithm::Sha512 => HashAlgorithm::Sha512,
        });
        let r = call("sig_new", msg, || VerifiedSshSignature::new_with_private_key(msg, ns, k.clone(), hb));
        let st = r.st();
        let o = r.ok();
        let pm = pub_m(&k.pubkey);
        let mut fields = vec![];
        if let Some(v) = &o {
            let chosen = match &ha {
                Some(HashAlgorithm::Sha256) => "sha256",
                _ => "sha512",
            };
            let d = sha(chosen, msg);
            let data = crate::wire::W::new().raw(b"SSHSIG").s(ns).b(b"").s(chosen).b(&d).0;
            self.witness(&pm, &v.signature.signature, &data);
            let om = self.x(&v.message);
            let text = match callv("sig_disp", b"", || format!("{v}")) {
                R::Ok(t) => t,
                _ => "<panic>".into(),
            };
            fields.push(("text", arr32(&text.chars().map(|c| c as u32).collect::<Vec<_>>())));
            fields.push(("out", format!("{{{},\"msg\":{}}}", sig_j(&v.signature), om)));
        }
        let m = self.x(msg);
        let mut f = vec![("key", pub_j(&k.pubkey)), ("ns", arr(ns.as_bytes())), ("ha", opt(han)), ("msg", m), ("use", q(use_)), ("st", st)];
        f.extend(fields);
        self.push("sig_new", &f);
        o
    }
    // ---- public keys ----
    pub fn pub_line(&mut self, t: &str, path: bool) -> Option<PublicKey> {
        self.calls += 1;
        let r = call("pub_line", t.as_bytes(), || if path { with_file(t.as_bytes(), |p| PublicKey::from_path(p)) } else { PublicKey::from_string(t) });
        let x = self.xt(t);
        let mut f = vec![("in", x), ("st", r.st())];
        let o = r.ok();
        if let Some(k) = &o {
            f.push(("out", pub_j(k)));
        }
        self.push("pub_line", &f);
        o
    }
    pub fn pub_blob(&mut self, b: &[u8]) -> Option<PublicKey> {
        self.calls += 1;
        let r = call("pub_blob", b, || PublicKey::from_bytes(b));
        let x = self.x(b);
        let mut f = vec![("in", x), ("st", r.st())];
        let o = r.ok();
        if let Some(k) = &o {
            f.push(("out", pub_j(k)));
        }
        self.push("pub_blob", &f);
        o
    }
    pub fn pub_views(&mut self, k: &PublicKey) {
        let enc_spec = {
            let mut m = pub_m(k);
            if m.kt.starts_with("rsa-") {
                m.kt = "ssh-rsa".into();
            }
            m.enc()
        };
        self.pub_view_enc(k);
        self.pub_view_text(k);
        self.calls += 2;
        for (a, kind) in [("sha256", FingerprintKind::Sha256), ("sha384", FingerprintKind::Sha384), ("sha512", FingerprintKind::Sha512)] {
            self.hash(a, &enc_spec);
            let fp = match callv("pub_fp", &enc_spec, || k.fingerprint_with(kind)) {
                R::Ok(x) => x,
                _ => {
                    self.push("crash", &[]);
                    self.sus = true;
                    return;
                }
            };
            let want = crate::wire::b64np(&sha(a, &enc_spec));
            self.expect(fp.hash == want);
            self.push("pub_fp", &[("key", pub_j(k)), ("a", q(a)), ("kind", arr(format!("{}", fp.kind).as_bytes())), ("out", arr(fp.hash.as_bytes())), ("disp", arr(format!("{fp}").as_bytes()))]);
        }
        let fp = k.fingerprint();
        self.push("pub_fp", &[("key", pub_j(k)), ("a", q("sha256")), ("kind", arr(format!("{}", fp.kind).as_bytes())), ("out", arr(fp.hash.as_bytes())), ("disp", arr(format!("{fp}").as_bytes()))]);
    }
    pub fn pub_view_enc(&mut self, k: &PublicKey) {
        self.calls += 2;
        match callv("pub_enc", b"", || k.encode()) {
            R::Ok(b) => {
                let m = pub_m(k);
                self.expect(m.kt.starts_with("rsa-") || b == m.enc());
                self.push("pub_enc", &[("key", pub_j(k)), ("out", arr(&b))]);
            }
            _ => {
                self.push("crash", &[]);
                self.sus = true;
            }
        }
        match callv("pub_bits", b"", || k.bits()) {
            R::Ok(b) => {
                self.push("pub_bits", &[("key", pub_j(k)), ("out", b.to_string())]);
            }
            _ => {
                self.push("crash", &[]);
                self.sus = true;
            }
        }
    }
    pub fn pub_view_text(&mut self, k: &PublicKey) {
        self.calls += 2;
        let r = callv("pub_disp", b"", || {
            let mut w = vec![];
            k.write(&mut w).map(|_| (format!("{k}"), w))
        });
        match r {
            R::Ok(Ok((d, w))) => {
                self.push("pub_disp", &[("key", pub_j(k)), ("out", arr(d.as_bytes()))]);
                self.push("pub_write", &[("key", pub_j(k)), ("out", arr(&w))]);
            }
            _ => {
                self.push("crash", &[]);
                self.sus = true;
            }
        }
    }
    // ---- private keys ----
    pub fn priv_parse(&mut self, t: &str, pass: Option<&str>, path: bool) -> (String, Option<PrivateKey>) {
        self.calls += 1;
        let r = call("priv_parse", t.as_bytes(), || match (path, pass) {
            (true, Some(p)) => with_file(t.as_bytes(), |f| PrivateKey::from_path_with_passphrase(f, Some(p.to_string()))),
            (true, None) => with_file(t.as_bytes(), |f| PrivateKey::from_path(f)),
            (false, Some(p)) => PrivateKey::from_string_with_passphrase(t, Some(p.to_string())),
            (false, None) => PrivateKey::from_string(t),
        });
        let st = match &r {
            R::Ok(_) => "ok",
            R::Err(Error::EncryptedPrivateKey) => "enc",
            R::Err(Error::EncryptedPrivateKeyNotSupported) => "unsup",
            R::Err(_) => "err",
            R::Panic => "panic",
        };
        let x = self.xt(t);
        let mut f = vec![("in", x), ("pass", opt(pass.map(|p| arr(p.as_bytes())))), ("st", q(st))];
        let o = r.ok();
        if let Some(k) = &o {
            f.push(("out", priv_j(k)));
        }
        self.push("priv_parse", &f);
        let ok = match (refs::ref_priv(t, pass, &self.streams), &o) {
            (refs::Opened::St(w), _) => w == st,
            (refs::Opened::Key(p, s, cm, m), Some(k)) => refs::same_priv(k, &p, &s, &cm, Some(m)),
            _ => false,
        };
        self.expect(ok);
        (st.to_string(), o)
    }
    pub fn priv_bytes(&mut self, b: &[u8]) -> Option<PrivateKey> {
        self.calls += 1;
        let r = call("priv_bytes", b, || PrivateKey::from_bytes(b));
        let x = self.x(b);
        let mut f = vec![("in", x), ("st", r.st())];
        let o = r.ok();
        if let Some(k) = &o {
            f.push(("out", priv_j(k)));
        }
        self.push("priv_bytes", &f);
        let cert = b.len() > 4 && b[4..].windows(15).take(60).any(|w| w == b"-v01@openssh.co");
        self.expect(match (&o, refs::ref_privdata(b, 0)) {
            (None, None) => true,
            (Some(_), None) if cert => true,
            (Some(k), Some((p, s, cm))) => refs::same_priv(k, &p, &s, &cm, None),
            _ => false,
        });
        o
    }
    pub fn priv_views(&mut self, k: &PrivateKey) -> Option<Vec<u8>> {
        self.calls += 2;
        let r = callv("priv_enc", b"", || {
            let mut w = vec![];
            k.write(&mut w).map(|_| (k.encode(), w))
        });
        match r {
            R::Ok(Ok((e, w))) => {
                self.push("priv_enc", &[("key", priv_j(k)), ("out", arr(&e))]);
                self.push("priv_write", &[("key", priv_j(k)), ("out", arr(&w))]);
                Some(w)
            }
            _ => {
                self.push("crash", &[]);
                self.sus = true;
                None
            }
        }
    }
    pub fn priv_disp(&mut self, k: &PrivateKey) {
        self.calls += 1;
        self.hash("sha256", &pub_m(&k.pubkey).enc());
        let r = callv("priv_disp", b"", || format!("{k}"));
        let t = r.ok().unwrap_or("<panic>".into());
        self.push("priv_disp", &[("key", priv_j(k)), ("out", arr(t.as_bytes()))]);
    }
    pub fn priv_sign(&mut self, k: &PrivateKey, msg: &[u8], use_: &str) -> Option<Vec<u8>> {
        self.calls += 1;
        let r = callo("priv_sign", msg, || k.sign(msg));
        let st = r.st();
        let o = r.ok();
        let mut ok = true;
        if let Some(sig) = &o {
            ok = self.witness(&pub_m(&k.pubkey), sig, msg);
        }
        let m = self.x(msg);
        let mut f = vec![("key", pub_j(&k.pubkey)), ("msg", m), ("use", q(use_)), ("st", st)];
        if let Some(sig) = &o {
            f.push(("out", arr(sig)));
        }
        self.push("priv_sign", &f);
        self.expect(ok && (use_ == "any" || (use_ == "yes") == o.is_some()));
        o
    }
    // ---- allowed signers ----
    pub fn as_line(&mut self, t: &str) -> Option<AllowedSigner> {
        self.calls += 1;
        let r = call("as_line", t.as_bytes(), || AllowedSigner::from_string(t));
        let x = self.xt(t);
        let mut f = vec![("in", x), ("st", r.st())];
        let o = r.ok();
        if let Some(e) = &o {
            f.push(("out", entry_j(e)));
        }
        self.push("as_line", &f);
        o
    }
    pub fn as_file(&mut self, t: &str, path: bool) -> Result<Vec<AllowedSigner>, i64> {
        self.calls += 1;
        let r = call("as_file", t.as_bytes(), || if path { with_file(t.as_bytes(), |p| AllowedSigners::from_path(p)) } else { AllowedSigners::from_string(t) });
        let x = self.xt(t);
        let mut f = vec![("in", x), ("st", r.st())];
        let res = match r {
            R::Ok(v) => {
                f.push(("out", format!("[{}]", v.0.iter().map(entry_j).collect::<Vec<_>>().join(","))));
                Ok(v.0)
            }
            R::Err(e) => {
                let line = match e {
                    Error::InvalidAllowedSigners(_, n) => n.min(1 << 30) as i64,
                    _ => -1,
                };
                f.push(("line", line.to_string()));
                Err(line)
            }
            R::Panic => Err(-2),
        };
        self.push("as_file", &f);
        res
    }
    pub fn as_disp(&mut self, e: &AllowedSigner) -> Option<String> {
        self.calls += 1;
        let r = callv("as_disp", b"", || format!("{e}"));
        let t = r.ok();
        let txt = t.clone().unwrap_or("<panic>".into());
        self.push("as_disp", &[("key", entry_j(e)), ("text", arr32(&txt.chars().map(|c| c as u32).collect::<Vec<_>>()))]);
        t
    }
}
