//! C12, C13, C14: allowed signers.
use crate::api::*;
use crate::certgen::*;
use crate::dict::Dict;
use crate::keys::*;
use crate::log::*;
use crate::p_pub::ref_line;
use crate::rng::Rng;
use crate::wire::*;
use sshcerts::ssh::AllowedSigner;
use std::collections::BTreeSet;

// ---- the local time zone, as (first instant, offset) from libc ----
pub static ZONE: std::sync::OnceLock<Vec<(i64, i64)>> = std::sync::OnceLock::new();
const LO: i64 = 31_536_000 * 2; // 1972
const HI: i64 = 2_130_000_000; // 2037
fn zone() -> &'static [(i64, i64)] {
    ZONE.get().map(|z| z.as_slice()).unwrap_or(&[])
}
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn civil(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let (d, s) = (t.div_euclid(86400), t.rem_euclid(86400));
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (dd, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, dd, s / 3600, s / 60 % 60, s % 60)
}
#[derive(Clone, Debug)]
pub struct When {
    pub any: BTreeSet<i64>,
    pub may_fail: bool,
    /// local civil seconds, for the zone table
    pub local: Option<i64>,
}
pub fn ref_time(x: &str) -> When {
    let none = When { any: BTreeSet::new(), may_fail: true, local: None };
    let (b, utc) = match x.strip_suffix('Z') {
        Some(y) => (y, true),
        None => (x, false),
    };
    if ![8, 12, 14].contains(&b.len()) || !b.bytes().all(|c| c.is_ascii_digit()) {
        return none;
    }
    let n = |a: usize, l: usize| -> i64 { b.get(a..a + l).map(|s| s.parse().unwrap()).unwrap_or(0) };
    let (y, m, d, h, mi, s) = (n(0, 4), n(4, 2), n(6, 2), n(8, 2), n(10, 2), n(12, 2));
    if !(1..=12).contains(&m) || d < 1 || h > 23 || mi > 59 || s > 60 {
        return none;
    }
    let dm = if m == 12 { 31 } else { days(y, m + 1, 1) - days(y, m, 1) };
    if d > dm {
        return none;
    }
    let t = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
    let mut w = When { any: BTreeSet::new(), may_fail: s == 60, local: None };
    if utc || zone().is_empty() {
        w.any.insert(t);
    } else {
        w.local = Some(t);
        let z = zone();
        for k in 0..z.len() {
            let i = t - z[k].1;
            if (k == 0 || z[k].0 <= i) && (k + 1 == z.len() || i < z[k + 1].0) {
                w.any.insert(i);
            }
        }
        if w.any.is_empty() {
            w.may_fail = true;
            for k in 1..z.len() {
                if t - z[k - 1].1 == z[k].0 {
                    w.any.insert(z[k].0);
                }
            }
        }
    }
    if s == 60 {
        let v: Vec<i64> = w.any.iter().copied().collect();
        for i in v {
            w.any.insert(i - 1);
        }
    }
    w
}
#[derive(Clone, Debug)]
pub struct Entry {
    pr: Vec<String>,
    ca: bool,
    ns: Option<Vec<String>>,
    va: Option<When>,
    vb: Option<When>,
    key: PubM,
}
#[derive(Clone, Debug)]
pub enum Line {
    Open,
    Bad,
    Entry(Box<Entry>),
}
fn tokens(t: &str) -> Option<Vec<String>> {
    let (v, ok) = ref_tokens(t);
    ok.then_some(v)
}
/// the tokens before the first that cannot be told, and whether there is none such
pub fn ref_tokens(t: &str) -> (Vec<String>, bool) {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    loop {
        while i < c.len() && c[i] == ' ' {
            i += 1;
        }
        if i >= c.len() || c[i] == '#' {
            return (v, true);
        }
        let s = i;
        while i < c.len() && ![' ', '"', '#'].contains(&c[i]) {
            i += 1;
        }
        if i < c.len() && c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += 1;
            }
            if i >= c.len() {
                return (v, false);
            }
            i += 1;
            if i < c.len() && c[i] != ' ' && c[i] != '#' {
                return (v, false);
            }
        }
        v.push(c[s..i].iter().collect());
    }
}
fn partial(t: &str) -> Vec<String> {
    // the tokens of the longest prefix that splits: splitting fails either at
    // a quote that is never closed or right after a closing one
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut cut) = (0, c.len());
    while i < c.len() && c[i] != '#' {
        if c[i] == '"' {
            match c[i + 1..].iter().position(|x| *x == '"') {
                None => {
                    cut = i;
                    break;
                }
                Some(k) => {
                    i += k + 2;
                    if i < c.len() && c[i] != ' ' && c[i] != '#' {
                        cut = i;
                        break;
                    }
                }
            }
        } else {
            i += 1;
        }
    }
    tokens(&c[..cut].iter().collect::<String>()).unwrap_or_default()
}
fn opt_of(t: &str) -> Option<&'static str> {
    let k = t.split('=').next().unwrap().to_ascii_lowercase();
    ["cert-authority", "namespaces", "valid-after", "valid-before"].into_iter().find(|x| *x == k)
}
pub fn ref_as(t: &str) -> Line {
    let tk = tokens(t);
    let toks = tk.clone().unwrap_or_else(|| partial(t));
    if toks.iter().skip(1).any(|x| x.chars().any(|c| c.is_whitespace() && c != ' ')) {
        return Line::Open;
    }
    let n = toks.iter().skip(1).take_while(|x| opt_of(x).is_some()).count();
    let opts: Vec<&String> = toks.iter().skip(1).take(n).collect();
    if opts.iter().any(|x| opt_of(x) == Some("cert-authority") && x.contains('=')) {
        return Line::Open;
    }
    if tk.is_none() {
        return if t.chars().any(|c| c.is_whitespace() && c != ' ') { Line::Open } else { Line::Bad };
    }
    if toks.len() != n + 3 {
        return Line::Bad;
    }
    let uq = |s: &str| s.trim_matches('"').to_string();
    let p = uq(&toks[0]);
    if p.contains('"') {
        return Line::Bad;
    }
    let pr: Vec<String> = p.split(',').map(|x| x.to_string()).collect();
    if pr.iter().any(|x| x.is_empty()) {
        return Line::Bad;
    }
    let mut e = Entry { pr, ca: false, ns: None, va: None, vb: None, key: PubM { kt: String::new(), p: vec![] } };
    for o in opts {
        let v = uq(o.split_once('=').map(|x| x.1).unwrap_or(""));
        if v.contains('"') {
            return Line::Bad;
        }
        let (dup, w) = match opt_of(o).unwrap() {
            "cert-authority" => {
                e.ca = true;
                (false, None)
            }
            "namespaces" => (e.ns.replace(v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).is_some(), None),
            "valid-after" => {
                let w = ref_time(&v);
                (e.va.replace(w.clone()).is_some(), Some(w))
            }
            _ => {
                let w = ref_time(&v);
                (e.vb.replace(w.clone()).is_some(), Some(w))
            }
        };
        if dup || w.map(|w| w.any.is_empty()).unwrap_or(false) {
            return Line::Bad;
        }
    }
    match ref_line(&format!("{} {}", toks[n + 1], toks[n + 2])) {
        Some((k, _)) => e.key = k,
        None => return Line::Bad,
    }
    Line::Entry(Box::new(e))
}
impl Entry {
    fn may_fail(&self) -> bool {
        let f = |w: &Option<When>| w.as_ref().map(|w| w.may_fail).unwrap_or(false);
        f(&self.va)
            || f(&self.vb)
            || match (&self.va, &self.vb) {
                (Some(a), Some(b)) => a.any.iter().any(|a| b.any.iter().any(|b| b <= a)),
                _ => false,
            }
    }
    fn matches(&self, o: &AllowedSigner) -> bool {
        let t = |w: &Option<When>, x: Option<i64>| match (w, x) {
            (None, None) => true,
            (Some(w), Some(x)) => w.any.contains(&x),
            _ => false,
        };
        self.pr == o.principals
            && self.ca == o.cert_authority
            && self.ns == o.namespaces
            && t(&self.va, o.valid_after)
            && t(&self.vb, o.valid_before)
            && !matches!((o.valid_after, o.valid_before), (Some(a), Some(b)) if b <= a)
            && self.key == pub_m(&o.key)
    }
}
/// local times are only used where the zone table says what they mean
fn usable(t: &str) -> bool {
    if zone().is_empty() {
        return true;
    }
    t.lines().all(|l| {
        let toks = tokens(l.trim()).unwrap_or_else(|| partial(l.trim()));
        toks.iter().all(|x| {
            if !matches!(opt_of(x), Some("valid-after" | "valid-before")) {
                return true;
            }
            let v = x.split_once('=').map(|x| x.1).unwrap_or("").trim_matches('"');
            match ref_time(v).local {
                Some(t) => t > LO && t < HI,
                None => true,
            }
        })
    })
}
pub fn zone_for(s: &mut Sess, texts: &[String]) {
    if zone().is_empty() {
        return;
    }
    let z = zone();
    let mut pts: BTreeSet<(i64, i64)> = BTreeSet::new();
    pts.insert((i64::from(i32::MIN), z[0].1));
    for t in texts {
        for l in t.lines() {
            for x in tokens(l.trim()).unwrap_or_else(|| partial(l.trim())) {
                if !matches!(opt_of(&x), Some("valid-after" | "valid-before")) {
                    continue;
                }
                let v = x.split_once('=').map(|x| x.1).unwrap_or("").trim_matches('"').to_string();
                let Some(c) = ref_time(&v).local else { continue };
                let (a, b) = (c - 2 * 86400, c + 2 * 86400);
                let k = z.iter().rposition(|e| e.0 <= a).unwrap_or(0);
                pts.insert((a, z[k].1));
                for e in z.iter().filter(|e| e.0 > a && e.0 < b) {
                    pts.insert(*e);
                }
            }
        }
    }
    // drop restatements of the offset already in force
    let mut v: Vec<(i64, i64)> = vec![];
    for p in pts {
        if v.last().map(|l| l.1 != p.1).unwrap_or(true) {
            v.push(p);
        }
    }
    s.zone = Some(format!("[{}]", v.iter().map(|(t, o)| format!("[{},{},{}]", t.div_euclid(86400), t.rem_euclid(86400), o)).collect::<Vec<_>>().join(",")));
}
pub fn as_line(s: &mut Sess, t: &str, seen: &mut Vec<String>) -> Option<AllowedSigner> {
    if !usable(t) {
        return None;
    }
    seen.push(t.to_string());
    let n = s.ev.len();
    let o = s.as_line(t);
    let ok = match (ref_as(t), &o) {
        (Line::Open, _) => !s.ev[n..].iter().any(|e| e.contains("\"st\":\"panic\"")),
        (Line::Bad, None) => true,
        (Line::Entry(e), Some(o)) => e.matches(o),
        (Line::Entry(e), None) => e.may_fail(),
        _ => false,
    };
    s.expect(ok && !s.ev.last().unwrap().contains("\"st\":\"panic\""));
    o
}
pub fn as_file(s: &mut Sess, t: &str, path: bool, seen: &mut Vec<String>) -> Result<Vec<AllowedSigner>, i64> {
    if !usable(t) {
        return Err(-3);
    }
    seen.push(t.to_string());
    let o = s.as_file(t, path);
    let ls: Vec<(usize, Line)> = t.lines().enumerate().map(|(i, l)| (i, l.trim())).filter(|x| !x.1.is_empty() && !x.1.starts_with('#')).map(|x| (x.0, ref_as(x.1))).collect();
    if ls.iter().any(|x| matches!(x.1, Line::Open)) {
        s.expect(!matches!(o, Err(-2)));
        return o;
    }
    let ok = match &o {
        Ok(v) => v.len() == ls.len() && v.iter().zip(&ls).all(|(o, (_, l))| matches!(l, Line::Entry(e) if e.matches(o))),
        Err(n) => {
            let mut ok = false;
            for (i, l) in &ls {
                match l {
                    Line::Entry(e) => {
                        if *i as i64 == *n && e.may_fail() {
                            ok = true;
                        }
                    }
                    _ => {
                        if *i as i64 == *n {
                            ok = true;
                        }
                        break;
                    }
                }
            }
            ok
        }
    };
    s.expect(ok);
    o
}

// ---- generation ----
fn stamp_of(t: i64, r: &mut Rng, z: bool) -> String {
    let (y, m, d, h, mi, s) = civil(t);
    let b = match r.n(4) {
        0 => format!("{y:04}{m:02}{d:02}"),
        1 => format!("{y:04}{m:02}{d:02}{h:02}{mi:02}"),
        _ => format!("{y:04}{m:02}{d:02}{h:02}{mi:02}{s:02}"),
    };
    if z {
        b + "Z"
    } else {
        b
    }
}
/// a timestamp; mostly a meaningful one
pub fn stamp(r: &mut Rng, d: &Dict) -> String {
    let z = zone();
    let utc = r.chance(if z.is_empty() { 60 } else { 25 });
    if !z.is_empty() && !utc && r.chance(85) {
        let in_range: Vec<&(i64, i64)> = z.iter().filter(|e| e.0 > LO + 400_000 && e.0 < HI - 400_000).collect();
        let t = if !in_range.is_empty() && r.chance(75) {
            let e = **r.pick(&in_range);
            let k = z.iter().position(|x| *x == e).unwrap();
            let off = if r.chance(50) || k == 0 { e.1 } else { z[k - 1].1 };
            let j = match r.n(6) {
                0 => 0,
                1 => *r.pick(&[-1, 1]),
                2 => *r.pick(&[-3600, 3600, -1800, 1800, -3599, 3599, -3601, 3601, -7200, 7200, -60, 60]),
                3 => r.n(7200) as i64 - 3600,
                4 => *r.pick(&[-86400, 86400, -43200, 43200]),
                _ => r.n(90000) as i64 - 45000,
            };
            e.0 + off + j
        } else {
            LO + 100_000 + r.n((HI - LO - 200_000) as usize) as i64
        };
        return stamp_of(t, r, false);
    }
    if r.chance(4) {
        // around the origin and where a number of seconds outgrows its place
        let at = *r.pick(&[0i64, 0, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1_000_000_000, 86_400, -86_400]) + *r.pick(&[0, 0, 1, -1]);
        let (y, m, d, h, mi, s) = civil(at);
        let full = format!("{y:04}{m:02}{d:02}{h:02}{mi:02}{s:02}Z");
        return match full.strip_suffix("000000Z") {
            Some(day) if r.chance(50) => format!("{day}Z"),
            _ => full,
        };
    }
    let y: i64 = match r.n(8) {
        0 => *r.pick(&[0, 1, 4, 100, 400, 1582, 1600, 1700, 1752, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2037, 2038, 2039, 2099, 2100, 2106, 2262, 2400, 9998, 9999]),
        1 => r.n(10000) as i64,
        2 => (d.int(r) % 10000) as i64,
        _ => 1970 + r.n(80) as i64,
    };
    let m = r.range(1, 12) as i64;
    let dm = if m == 12 { 31 } else { days(y, m + 1, 1) - days(y, m, 1) };
    let day = match r.n(4) {
        0 => dm,
        1 => 1,
        _ => r.range(1, dm as usize) as i64,
    };
    let (mut m, mut day) = (m, day);
    if r.chance(15) {
        (m, day) = (2, *r.pick(&[28, 29, 28, 29, 30]));
    }
    let (mut h, mut mi, mut se) = (r.n(24), r.n(60), r.n(60));
    if r.chance(30) {
        (h, mi, se) = *r.pick(&[(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (23, 0, 0), (0, 59, 59), (10, 10, 10)]);
    }
    if r.chance(18) {
        match r.n(6) {
            0 => m = *r.pick(&[0, 13, 99, 20]),
            1 => day = *r.pick(&[0, 31, 32, 99, 30]),
            2 => h = *r.pick(&[24, 25, 99]),
            3 => mi = *r.pick(&[60, 61, 99]),
            4 => se = *r.pick(&[60, 61, 62, 99]),
            _ => {}
        }
    }
    let b = match r.n(4) {
        0 => format!("{y:04}{m:02}{day:02}"),
        1 => format!("{y:04}{m:02}{day:02}{h:02}{mi:02}"),
        _ => format!("{y:04}{m:02}{day:02}{h:02}{mi:02}{se:02}"),
    };
    let mut b = if utc { b + "Z" } else { b };
    if r.chance(12) {
        let mut c: Vec<char> = b.chars().collect();
        let i = r.n(c.len());
        match r.n(9) {
            0 => c[i] = *r.pick(&['+', '-', ' ', 'a', 'Z', 'z', '.', ':', 'T', '/', '\u{661}', '\u{ff11}', '\t']),
            1 => {
                c.remove(i);
            }
            2 => c.insert(i, *r.pick(&['0', '1', '9', '+', '-', ' ', 'Z', 'T'])),
            3 => c.push('Z'),
            4 => c.push('z'),
            5 => c.push_n(r.n(10)),
            6 => c.truncate(i),
            7 => {
                c = r.text(d, 20).chars().collect();
            }
            _ => {
                let n = r.n(30);
                c = (0..n).map(|_| char::from(b'0' + r.n(10) as u8)).collect();
            }
        }
        b = c.into_iter().collect();
    }
    b
}
trait PushN {
    fn push_n(&mut self, n: usize);
}
impl PushN for Vec<char> {
    fn push_n(&mut self, n: usize) {
        for i in 0..n {
            self.push(char::from(b'0' + i as u8));
        }
    }
}
fn name(r: &mut Rng, d: &Dict) -> String {
    let t = match r.n(8) {
        0 => format!("{} {}", r.word(), r.word()),
        1 => format!("{}#{}", r.word(), r.word()),
        2 => (0..r.range(1, 4)).map(|_| r.uchar()).collect(),
        3 => d.string(r),
        4 => format!("{}@{}", r.word(), r.word()),
        5 => (*r.pick(&["cert-authority", "namespaces", "valid-after=20200101Z", "namespaces=a", "ssh-ed25519", "=", "a=b", "*", "!x", " ", "'", "\\"])).to_string(),
        _ => r.word(),
    };
    t.replace([',', '"', '\n', '\r'], "")
}
pub struct Spec {
    pub principals: String,
    pub opts: Vec<String>,
    pub kt: String,
    pub data: String,
    pub tail: String,
}
fn quote(r: &mut Rng, v: &str, must: bool) -> String {
    if must || v.contains([' ', '#']) && r.chance(95) || r.chance(25) {
        format!("\"{v}\"")
    } else {
        v.to_string()
    }
}
fn case(r: &mut Rng, n: &str) -> String {
    match r.n(4) {
        0 => n.to_uppercase(),
        1 => n.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => n.to_string(),
    }
}
pub fn key_of(r: &mut Rng, d: &Dict) -> PubM {
    loop {
        let k = any_pub(r, d);
        if k.enc().len() < 700 {
            return k;
        }
    }
}
pub fn spec(r: &mut Rng, d: &Dict, pool: &[PubM]) -> Spec {
    let n = if r.chance(70) { 1 } else { r.range(2, 5) };
    let mut pr: Vec<String> = vec![];
    for _ in 0..n {
        let mut x = name(r, d);
        if x.is_empty() && r.chance(90) {
            x = r.word();
        }
        pr.push(x);
    }
    let p = pr.join(",");
    let must = p.is_empty() || opt_of(&p).is_some() && r.chance(50);
    let principals = quote(r, &p, must);
    let mut opts = vec![];
    if r.chance(40) {
        opts.push(case(r, "cert-authority"));
    }
    if r.chance(45) {
        let n = r.n(4);
        let mut v: Vec<String> = (0..n).map(|_| name(r, d)).collect();
        if r.chance(20) {
            v.insert(r.n(v.len() + 1), String::new());
        }
        let v = v.join(",");
        opts.push(format!("{}={}", case(r, "namespaces"), quote(r, &v, false)));
    }
    for nm in ["valid-after", "valid-before"] {
        if r.chance(35) {
            let v = stamp(r, d);
            opts.push(format!("{}={}", case(r, nm), quote(r, &v, false)));
        }
    }
    r.shuffle(&mut opts);
    let k = r.pick(pool).clone();
    let tail = match r.n(8) {
        0 => " # a comment".into(),
        1 => format!(" #{}", r.text(d, 20).replace(['\n', '\r'], "")),
        2 => "#glued".into(),
        3 => "   ".into(),
        4 => " # \"quoted\"".into(),
        5 => " #\"".into(),
        _ => String::new(),
    };
    Spec { principals, opts, data: b64(&k.enc()), kt: k.kt, tail }
}
pub fn render(r: &mut Rng, sp: &Spec) -> String {
    let mut t = String::new();
    if r.chance(10) {
        t += "  ";
    }
    t += &sp.principals;
    let sep = |r: &mut Rng| if r.chance(80) { " ".to_string() } else { " ".repeat(r.range(2, 4)) };
    for o in sp.opts.iter().chain([&sp.kt, &sp.data]) {
        t += &sep(r);
        t += o;
    }
    t += &sp.tail;
    t
}
fn harm(r: &mut Rng, d: &Dict, sp: &mut Spec) {
    match r.n(16) {
        0 => sp.principals = (*r.pick(&["", ",", "a,", ",a", "a,,b", "\"\"", "\"a,\"", "\",\"", "\"a\"b", "a\"b\"", "\"a", "a\"", "\"a b\"c", "\"\"a", "a\"b\"c\"", "\"a\"\"b\""])).to_string(),
        1 => sp.kt = (*r.pick(&ALL_TYPES)).to_string(),
        2 => {
            sp.data.pop();
        }
        3 => sp.data = String::new(),
        4 => sp.kt = String::new(),
        5 => {
            if !sp.opts.is_empty() {
                let o = if r.chance(30) {
                    // a bound given twice
                    let o = format!("{}={}", r.pick(&["valid-after", "valid-before"]), stamp(r, d));
                    sp.opts.push(o.clone());
                    o
                } else {
                    r.pick(&sp.opts).clone()
                };
                let o = if r.chance(50) { o } else { o.split('=').next().unwrap().to_uppercase() + "=20330101Z" };
                sp.opts.insert(r.n(sp.opts.len() + 1), o);
            } else {
                sp.opts = vec!["namespaces=a".into(), "NAMESPACES=b".into()];
            }
        }
        6 => {
            let o = (*r.pick(&["namespaces", "valid-after", "valid-before", "cert-authority=", "cert-authority=yes", "cert_authority", "namespace=a", "valid-after=", "foo", "foo=bar", "=x", "namespaces=\"a", "namespaces=a\"", "namespaces=\"a\"b", "namespaces=a\"b\"", "namespaces=\"\"", "\"namespaces=a\"", "namespaces=\"a\"\"b\"", "zos-key-ring-label=x", "cert-authority,namespaces=x"])).to_string();
            sp.opts.insert(r.n(sp.opts.len() + 1), o);
        }
        7 => sp.tail = format!(" {}", r.word()),
        8 => sp.tail = " \"x\"".into(),
        9 => {
            let a = stamp(r, d);
            let b = if r.chance(40) { a.clone() } else { stamp(r, d) };
            sp.opts.retain(|o| !matches!(opt_of(o), Some("valid-after" | "valid-before")));
            sp.opts.push(format!("valid-after={a}"));
            sp.opts.insert(r.n(sp.opts.len() + 1), format!("valid-before={b}"));
        }
        10 => {
            // adjacent bounds
            let t = 1_000_000_000 + r.n(900_000_000) as i64;
            let (y, m, d2, h, mi, s) = civil(t);
            let a = format!("{y:04}{m:02}{d2:02}{h:02}{mi:02}{s:02}Z");
            let (y, m, d2, h, mi, s) = civil(t + r.n(3) as i64 - 1);
            let b = format!("{y:04}{m:02}{d2:02}{h:02}{mi:02}{s:02}Z");
            sp.opts.retain(|o| !matches!(opt_of(o), Some("valid-after" | "valid-before")));
            sp.opts.push(format!("valid-after={a}"));
            sp.opts.insert(r.n(sp.opts.len() + 1), format!("valid-before={b}"));
        }
        11 => sp.data = format!("\"{}\"", sp.data),
        12 => sp.kt = format!("\"{}\"", sp.kt),
        13 => sp.data = format!("{}=", sp.data),
        14 => {
            // an option after the key
            let o = sp.opts.pop().unwrap_or("cert-authority".into());
            sp.tail = format!(" {o}");
        }
        _ => {
            let b = base64::decode(&sp.data).unwrap_or_default();
            let x = damage(r, d, &b);
            sp.data = b64(&x);
        }
    }
}
fn poke(r: &mut Rng, d: &Dict, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return r.text(d, 20);
    }
    let n = c.len().min(if r.chance(70) { 60 } else { usize::MAX });
    let i = r.n(n);
    match r.n(4) {
        0 => c[i] = *r.pick(&['"', ' ', '#', ',', '=', 'x', '\t']),
        1 => {
            c.remove(i);
        }
        2 => c.insert(i, *r.pick(&['"', ' ', '#', ',', '=', 'x', '"', ' ', '\u{a0}'])),
        _ => c.truncate(i),
    }
    c.into_iter().collect()
}
fn printable(e: &AllowedSigner) -> bool {
    let y = |t: Option<i64>| t.map(|t| (-62_167_219_200..=253_402_300_799).contains(&t)).unwrap_or(true);
    y(e.valid_after) && y(e.valid_before) && !e.key.key_type.name.starts_with("rsa-")
}
fn pool(r: &mut Rng, d: &Dict) -> Vec<PubM> {
    let n = r.range(1, 2);
    (0..n).map(|_| key_of(r, d)).collect()
}
fn note_keys(s: &mut Sess, p: &[PubM]) {
    for k in p {
        s.xt(&format!("x {} {}", k.kt, b64(&k.enc())));
    }
}
pub fn print_back(s: &mut Sess, e: &AllowedSigner, seen: &mut Vec<String>) {
    if !printable(e) || e.principals.iter().chain(e.namespaces.iter().flatten()).any(|x| x.chars().any(|c| c.is_whitespace() && c != ' ')) {
        return;
    }
    if let Some(t) = s.as_disp(e) {
        // the printed line is an entry again: an equal one
        let b = as_line(s, &t, seen);
        let same = b.as_ref().map(|b| {
            b.principals == e.principals && b.cert_authority == e.cert_authority && b.namespaces == e.namespaces && b.valid_after == e.valid_after && b.valid_before == e.valid_before && pub_m(&b.key) == pub_m(&e.key)
        });
        s.expect(same == Some(true));
    } else {
        s.expect(false);
    }
}
pub fn c12(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let p = pool(r, d);
    note_keys(&mut s, &p);
    let mut seen = vec![];
    let n = r.range(2, 5);
    for _ in 0..n {
        let mut sp = spec(r, d, &p);
        let t = render(r, &sp);
        if let Some(e) = as_line(&mut s, &t, &mut seen) {
            if r.chance(50) {
                print_back(&mut s, &e, &mut seen);
            }
        }
        if r.chance(60) {
            harm(r, d, &mut sp);
            let t = render(r, &sp);
            if let Some(e) = as_line(&mut s, &t, &mut seen) {
                print_back(&mut s, &e, &mut seen);
            }
        }
        if r.chance(50) {
            let t = poke(r, d, &t);
            if let Some(e) = as_line(&mut s, &t, &mut seen) {
                print_back(&mut s, &e, &mut seen);
            }
        }
    }
    // an entry built in code
    if r.chance(15) {
        let k = sshcerts::PublicKey::from_bytes(&p[0].enc());
        if let Ok(mut k) = k {
            if r.chance(40) {
                k.comment = Some(r.text(d, 20));
            }
            let clean = |r: &mut Rng| loop {
                let x = name(r, d).replace(|c: char| c.is_whitespace() && c != ' ', "");
                if !x.is_empty() {
                    return x;
                }
            };
            let va = r.chance(50).then(|| r.n(4_000_000_000) as i64 - 500_000_000);
            let e = AllowedSigner {
                principals: (0..r.range(1, 3)).map(|_| clean(r)).collect(),
                cert_authority: r.chance(50),
                namespaces: r.chance(50).then(|| (0..r.n(3)).map(|_| clean(r)).collect()),
                valid_after: va,
                valid_before: r.chance(50).then(|| va.unwrap_or(0) + 1 + r.n(3_000_000_000) as i64),
                key: k,
            };
            print_back(&mut s, &e, &mut seen);
        }
    }
    zone_for(&mut s, &seen);
    s
}
pub fn c13(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let p = pool(r, d);
    note_keys(&mut s, &p);
    let mut seen = vec![];
    let m = r.range(1, 2);
    for _ in 0..m {
        let n = match r.n(6) {
            0 => 0,
            1 => 1,
            _ => r.range(2, 8),
        };
        let bad = if r.chance(35) && n > 0 { Some(r.n(n)) } else { None };
        let mut t = String::new();
        let nl = *r.pick(&["\n", "\n", "\n", "\r\n", "\n\n"]);
        let mut lines: Vec<String> = vec![];
        for i in 0..n {
            let l = match r.n(8) {
                0 => String::new(),
                1 => r.pick(&["#", "# comment", "  # x", "#\"", "\t# tab"]).to_string(),
                2 => r.pick(&[" ", "\t", "\u{a0}", "   "]).to_string(),
                3 if !lines.is_empty() => r.pick(&lines).clone(),
                _ => {
                    let mut sp = spec(r, d, &p);
                    if bad == Some(i) {
                        harm(r, d, &mut sp);
                    }
                    let mut l = render(r, &sp).replace(['\n', '\r'], "");
                    if r.chance(6) {
                        l = poke(r, d, &l);
                    }
                    if r.chance(10) {
                        l = format!("{}{l}{}", r.pick(&["\t", " ", "\u{3000}", ""]), r.pick(&["\t", " ", "\u{3000}", ""]));
                    }
                    if r.chance(4) {
                        l = format!("#{l}");
                    }
                    l
                }
            };
            lines.push(l);
        }
        if r.big && r.chance(20) {
            // far down the file
            let k = *r.pick(&[255usize, 256, 1000, 1001, 4096, 32768, 65536]);
            let at = r.n(lines.len() + 1);
            let fill = r.pick(&["", "#", "# c", "  "]).to_string();
            lines.splice(at..at, std::iter::repeat(fill).take(k));
        }
        for (i, l) in lines.iter().enumerate() {
            t += l;
            if i + 1 < lines.len() || r.chance(70) {
                t += if r.chance(5) { "\r\n" } else { nl };
            }
        }
        if r.chance(3) {
            t.insert(0, '\u{feff}');
        }
        if let Ok(v) = as_file(&mut s, &t, r.chance(15), &mut seen) {
            // every line by itself means the same
            if r.chance(30) {
                let ls: Vec<String> = t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
                for (l, e) in ls.iter().zip(&v) {
                    let o = as_line(&mut s, l, &mut seen);
                    s.expect(o.as_ref() == Some(e));
                }
            }
            if r.chance(20) && v.iter().all(printable) {
                for e in &v {
                    print_back(&mut s, e, &mut seen);
                }
            }
        }
    }
    zone_for(&mut s, &seen);
    s
}
pub fn c14(r: &mut Rng, d: &Dict) -> Sess {
    let mut s = Sess::new();
    let k = key_of(r, d);
    let p = [k];
    note_keys(&mut s, &p);
    let mut seen = vec![];
    let n = r.range(2, 6);
    for _ in 0..n {
        let k = &p[0];
        let mut t = "x".to_string();
        let (a, b) = (r.chance(70), r.chance(45));
        if a || !b {
            let v = stamp(r, d);
            t += &format!(" valid-after={}", quote(r, &v, false));
        }
        if b {
            let v = stamp(r, d);
            t += &format!(" valid-before={}", quote(r, &v, false));
        }
        t += &format!(" {} {}", k.kt, b64(&k.enc()));
        if let Some(e) = as_line(&mut s, &t, &mut seen) {
            if r.chance(40) {
                print_back(&mut s, &e, &mut seen);
            }
        }
    }
    zone_for(&mut s, &seen);
    s
}
