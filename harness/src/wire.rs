//! Independent SSH wire encoders used to build inputs.
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn raw(mut self, b: &[u8]) -> W {
        self.0.extend_from_slice(b);
        self
    }
    pub fn u32(self, v: u32) -> W {
        self.raw(&v.to_be_bytes())
    }
    pub fn u64(self, v: u64) -> W {
        self.raw(&v.to_be_bytes())
    }
    pub fn b(self, b: &[u8]) -> W {
        self.u32(b.len() as u32).raw(b)
    }
    pub fn s(self, s: &str) -> W {
        self.b(s.as_bytes())
    }
    pub fn mp(self, b: &[u8]) -> W {
        let k = b.iter().take_while(|x| **x == 0).count();
        let b = &b[k..];
        if !b.is_empty() && b[0] >= 128 {
            let mut v = vec![0];
            v.extend_from_slice(b);
            self.b(&v)
        } else {
            self.b(b)
        }
    }
}
pub fn sb(b: &[u8]) -> Vec<u8> {
    W::new().b(b).0
}
const AL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 / 3 + 4);
    for c in b.chunks(3) {
        let x = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        s.push(AL[(x[0] >> 2) as usize] as char);
        s.push(AL[((x[0] & 3) << 4 | x[1] >> 4) as usize] as char);
        s.push(if c.len() > 1 { AL[((x[1] & 15) << 2 | x[2] >> 6) as usize] as char } else { '=' });
        s.push(if c.len() > 2 { AL[(x[2] & 63) as usize] as char } else { '=' });
    }
    s
}
pub fn b64np(b: &[u8]) -> String {
    b64(b).trim_end_matches('=').to_string()
}
pub fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// A well-formed or deliberately unusual armor around base64 text
pub fn armor(b: &[u8], begin: &str, end: &str, width: usize, nl: &str) -> String {
    let t = b64(b);
    let mut s = format!("{begin}{nl}");
    for c in t.as_bytes().chunks(width) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push_str(nl);
    }
    s.push_str(end);
    s
}
