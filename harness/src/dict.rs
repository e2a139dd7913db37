//! A dictionary of the literals that occur in the sources under test.  Inputs
//! drawn from it reach special cases that random values never would.  It only
//! steers input generation; no verdict depends on it.
use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<String>,
    pub blobs: Vec<Vec<u8>>,
    pub new_blobs: Vec<Vec<u8>>,
}

fn scan(src: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>, blobs: &mut BTreeSet<Vec<u8>>) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut last_ident = false;
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == '"' {
            let mut s = String::new();
            let mut bytes: Vec<u8> = Vec::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' if i + 2 < c.len() => {
                            let h: String = c[i + 1..i + 3].iter().collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                bytes.extend(s.as_bytes());
                                s.clear();
                                bytes.push(v);
                            }
                            i += 2;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if !bytes.is_empty() {
                bytes.extend(s.as_bytes());
                if bytes.len() <= 200 {
                    blobs.insert(bytes);
                }
            } else if s.len() <= 120 {
                strs.insert(s);
            }
            last_ident = false;
        } else if ch == '\'' {
            // char literal or lifetime
            if i + 2 < c.len() && c[i + 1] != '\\' && c[i + 2] == '\'' {
                strs.insert(c[i + 1].to_string());
                ints.insert(c[i + 1] as u64);
                i += 3;
            } else if i + 3 < c.len() && c[i + 1] == '\\' && c[i + 3] == '\'' {
                let x = match c[i + 2] {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    '0' => '\0',
                    x => x,
                };
                strs.insert(x.to_string());
                i += 4;
            } else {
                i += 1;
            }
            last_ident = false;
        } else if ch.is_ascii_digit() && !last_ident {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let t: String = c[st..i].iter().filter(|x| **x != '_').collect();
            let strip = |t: &str| {
                for suf in ["usize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "isize"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        return x.to_string();
                    }
                }
                t.to_string()
            };
            let t = strip(&t);
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("0b") {
                u64::from_str_radix(b, 2).ok()
            } else {
                t.parse::<u64>().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
                // 1 << 16, 64 * 1024
                let rest: String = c[i..(i + 30).min(c.len())].iter().collect();
                let rest = rest.trim_start();
                for op in ["<<", "*"] {
                    if let Some(x) = rest.strip_prefix(op) {
                        let n: String = x.trim_start().chars().take_while(|x| x.is_ascii_alphanumeric() || *x == '_').filter(|x| *x != '_').collect();
                        if let Ok(n) = strip(&n).parse::<u64>() {
                            let z = if op == "*" { v.checked_mul(n) } else { u32::try_from(n).ok().and_then(|n| v.checked_shl(n)) };
                            ints.extend(z);
                        }
                    }
                }
            }
            last_ident = false;
        } else {
            last_ident = ch.is_ascii_alphanumeric() || ch == '_';
            i += 1;
        }
    }
}

/// byte sequences written as [1, 2, 3] arrays
fn arrays(src: &str, blobs: &mut BTreeSet<Vec<u8>>) {
    for (i, _) in src.match_indices('[') {
        let rest = &src[i + 1..];
        if let Some(e) = rest.find(']') {
            let body = &rest[..e];
            if body.len() > 2000 {
                continue;
            }
            let v: Option<Vec<u8>> = body
                .split(',')
                .map(|x| x.trim().trim_end_matches("_u8").trim_end_matches("u8"))
                .filter(|x| !x.is_empty())
                .map(|x| {
                    if let Some(h) = x.strip_prefix("0x") {
                        u8::from_str_radix(h, 16).ok()
                    } else {
                        x.parse().ok()
                    }
                })
                .collect();
            if let Some(v) = v {
                if v.len() >= 2 {
                    blobs.insert(v);
                }
            }
        }
    }
}

fn files(dir: &std::path::Path, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                files(&p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    out.push(s);
                }
            }
        }
    }
}

impl Dict {
    pub fn load(repo: &str, snapshot: &str) -> Dict {
        let (mut ints, mut strs, mut blobs) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut srcs = vec![];
        files(&std::path::Path::new(repo).join("src"), &mut srcs);
        for s in &srcs {
            scan(s, &mut ints, &mut strs, &mut blobs);
            arrays(s, &mut blobs);
        }
        let mut d = Dict { ints: ints.into_iter().collect(), strs: strs.into_iter().collect(), blobs: blobs.into_iter().collect(), ..Default::default() };
        if let Ok(t) = std::fs::read_to_string(snapshot) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                let oi: BTreeSet<u64> = v["ints"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
                let os: BTreeSet<String> = v["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                d.new_ints = d.ints.iter().copied().filter(|x| !oi.contains(x)).collect();
                d.new_strs = d.strs.iter().filter(|x| !os.contains(*x)).cloned().collect();
                let ob: BTreeSet<Vec<u8>> = v["blobs"]
                    .as_array()
                    .map(|a| a.iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect()).collect())
                    .unwrap_or_default();
                d.new_blobs = d.blobs.iter().filter(|x| !ob.contains(*x)).cloned().collect();
            }
        }
        if d.ints.is_empty() {
            d.ints.push(0);
        }
        if d.strs.is_empty() {
            d.strs.push("x".into());
        }
        if d.blobs.is_empty() {
            d.blobs.push(vec![0]);
        }
        d
    }
    pub fn json(&self) -> String {
        serde_json::json!({"ints": self.ints, "strs": self.strs, "blobs": self.blobs}).to_string()
    }
    pub fn int(&self, r: &mut Rng) -> u64 {
        let p = if !self.new_ints.is_empty() && r.chance(70) { &self.new_ints } else { &self.ints };
        let v = *r.pick(p);
        match r.n(6) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.wrapping_mul(2),
            _ => v,
        }
    }
    pub fn small_int(&self, r: &mut Rng) -> u64 {
        for _ in 0..8 {
            let v = self.int(r);
            if v <= 4096 {
                return v;
            }
        }
        r.n(64) as u64
    }
    pub fn string(&self, r: &mut Rng) -> String {
        let p = if !self.new_strs.is_empty() && r.chance(70) { &self.new_strs } else { &self.strs };
        r.pick(p).clone()
    }
    pub fn bytes(&self, r: &mut Rng) -> Vec<u8> {
        match r.n(3) {
            0 => self.string(r).into_bytes(),
            1 => {
                let p = if !self.new_blobs.is_empty() && r.chance(70) { &self.new_blobs } else { &self.blobs };
                r.pick(p).clone()
            }
            _ => {
                let v = self.int(r);
                let mut b = v.to_be_bytes().to_vec();
                let k = r.n(8);
                b.drain(..k);
                b
            }
        }
    }
}
