//! Deterministic random numbers and value pools.
use crate::dict::Dict;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// what this session has used so far: equal and nearly equal values in
    /// different places are a case of their own
    seen_s: Vec<String>,
    seen_n: Vec<u64>,
    seen_b: Vec<Vec<u8>>,
    /// very large values allowed (not in sessions TLC reads as a matter of course)
    pub big: bool,
}

const WORD: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.@+/*!?";
fn split(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [split(&mut x), split(&mut x), split(&mut x), split(&mut x)], seen_s: vec![], seen_n: vec![], seen_b: vec![], big: false }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.n(100) < pct
    }
    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 32) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }

    pub fn saw(&mut self, t: &str) {
        if self.seen_s.len() < 24 && !t.is_empty() && t.len() < 400 {
            self.seen_s.push(t.to_string());
        }
    }
    fn again(&mut self) -> Option<String> {
        if self.seen_s.is_empty() || !self.chance(12) {
            return None;
        }
        let i = self.n(self.seen_s.len());
        let t = self.seen_s[i].clone();
        Some(match self.n(8) {
            0 => {
                let n = self.n(t.chars().count());
                t.chars().take(n).collect()
            }
            1 => t.to_uppercase(),
            2 => format!("{t}{}", *self.pick(&['x', ' ', '.', '\0', '/', '-', '=', ',', 'é'])),
            3 => t.chars().rev().collect(),
            _ => t,
        })
    }
    /// a length, biased to boundaries
    pub fn len(&mut self, d: &Dict, max: usize) -> usize {
        if self.big && self.n(60) == 0 {
            return *self.pick(&[2047usize, 2048, 4095, 4096, 4097, 5000, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 70001]);
        }
        let v = match self.n(10) {
            0 => 0,
            1 => 1,
            2 => self.n(8),
            3 => *self.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129]),
            4 => *self.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
            5 => d.small_int(self) as usize,
            _ => self.n(40),
        };
        if v <= max {
            v
        } else {
            self.n(max + 1)
        }
    }
    pub fn u64_pool(&mut self, d: &Dict) -> u64 {
        if !self.seen_n.is_empty() && self.chance(15) {
            let i = self.n(self.seen_n.len());
            let j = *self.pick(&[0u64, 0, 0, 1, u64::MAX]);
            return self.seen_n[i].wrapping_add(j);
        }
        let v = self.u64_new(d);
        if self.seen_n.len() < 16 {
            self.seen_n.push(v);
        }
        v
    }
    fn u64_new(&mut self, d: &Dict) -> u64 {
        match self.n(8) {
            0 => *self.pick(&[0u64, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536]),
            1 => *self.pick(&[
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0x1_0000_0000,
                i64::MAX as u64,
                1 << 63,
                u64::MAX,
                u64::MAX - 1,
                0x00ff_ffff_ffff_ffff,
            ]),
            2 => d.int(self),
            3 => {
                let sh = self.n(64);
                let j = self.n(3) as u64;
                (1u64 << sh).wrapping_add(j).wrapping_sub(1)
            }
            4 => self.n(1000) as u64,
            5 => {
                // seconds around now and other plausible instants
                1_500_000_000 + self.n(600_000_000) as u64
            }
            _ => self.u64(),
        }
    }
    pub fn u32_pool(&mut self, d: &Dict) -> u32 {
        match self.n(6) {
            0 => *self.pick(&[0u32, 1, 2, 3, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
            1 => d.int(self) as u32,
            2 => self.n(64) as u32,
            _ => self.u64() as u32,
        }
    }
    pub fn byte_pool(&mut self, d: &Dict) -> u8 {
        match self.n(5) {
            0 => *self.pick(&[0u8, 1, 2, 4, 5, 8, 16, 32, 64, 65, 69, 127, 128, 129, 254, 255]),
            1 => d.int(self) as u8,
            _ => self.byte(),
        }
    }
    /// bytes of boundary-biased length and varied content
    pub fn blob(&mut self, d: &Dict, max: usize) -> Vec<u8> {
        if !self.seen_b.is_empty() && self.chance(8) {
            let i = self.n(self.seen_b.len());
            let mut v = self.seen_b[i].clone();
            v.truncate(max);
            return v;
        }
        let v = self.blob_new(d, max);
        if self.seen_b.len() < 12 && !v.is_empty() && v.len() < 300 {
            self.seen_b.push(v.clone());
        }
        v
    }
    fn blob_new(&mut self, d: &Dict, max: usize) -> Vec<u8> {
        let n = self.len(d, max);
        match self.n(8) {
            0 => vec![0; n],
            1 => vec![255; n],
            2 => (0..n).map(|_| self.n(4) as u8).collect(),
            3 => {
                let mut v = d.bytes(self);
                v.truncate(max);
                v
            }
            4 => {
                let mut v = self.bytes(n);
                if n > 0 {
                    v[0] = *self.pick(&[0, 1, 127, 128, 255]);
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    /// printable word without spaces, quotes, commas or '#'
    pub fn word(&mut self) -> String {
        if !self.seen_s.is_empty() && self.chance(5) {
            let i = self.n(self.seen_s.len());
            let t = &self.seen_s[i];
            if t.len() < 40 && t.bytes().all(|c| WORD.contains(&c)) {
                return t.clone();
            }
        }
        let t = self.word_new();
        if self.chance(30) {
            self.saw(&t);
        }
        t
    }
    fn word_new(&mut self) -> String {
        let n = self.range(1, 12);
        (0..n).map(|_| *self.pick(WORD) as char).collect()
    }
    /// any text
    pub fn text(&mut self, d: &Dict, max: usize) -> String {
        if let Some(t) = self.again() {
            return t;
        }
        let t = self.text_new(d, max);
        self.saw(&t);
        t
    }
    fn text_new(&mut self, d: &Dict, max: usize) -> String {
        match self.n(12) {
            0 => String::new(),
            1 => self.word(),
            2 => {
                let k = self.range(1, 4);
                (0..k).map(|_| self.word()).collect::<Vec<_>>().join(" ")
            }
            3 => d.string(self),
            4 => {
                let n = self.len(d, max);
                (0..n).map(|_| char::from(self.n(128) as u8)).collect()
            }
            5 => {
                let n = self.len(d, max / 4);
                (0..n).map(|_| self.uchar()).collect()
            }
            6 => {
                let n = self.len(d, max);
                "x".repeat(n)
            }
            7 => {
                let mut w = d.string(self);
                w.push_str(&self.word());
                w
            }
            8 => {
                let mut w = self.word();
                w.push(*self.pick(&['"', '\'', '#', ',', '=', '\\', '\n', '\r', '\t', ' ', '\0', ':', '*', '|', '\u{7f}']));
                w.push_str(&self.word());
                w
            }
            _ => self.word(),
        }
    }
    pub fn uchar(&mut self) -> char {
        let c = match self.n(6) {
            0 => self.n(128) as u32,
            1 => 128 + self.n(2048 - 128) as u32,
            2 => 2048 + self.n(0xd800 - 2048) as u32,
            3 => *self.pick(&[0x85u32, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x10ffff, 0xe000, 0xd7ff, 0x200b]),
            4 => 0x10000 + self.n(0x100000) as u32,
            _ => 97 + self.n(26) as u32,
        };
        char::from_u32(c).unwrap_or('?')
    }
}
