//! ECDSA signatures of any shape: given r, s and the message, the key that
//! makes them valid is computed (public key recovery).
use crate::rng::Rng;
use num_bigint::BigUint;

pub struct Curve {
    pub name: &'static str,
    p: BigUint,
    n: BigUint,
    b: BigUint,
    g: (BigUint, BigUint),
    pub len: usize,
    pub hash: &'static str,
}
fn h(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn curve(name: &str) -> Curve {
    match name {
        "nistp256" => Curve {
            name: "nistp256",
            p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
            n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            g: (
                h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            ),
            len: 32,
            hash: "sha256",
        },
        _ => Curve {
            name: "nistp384",
            p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
            n: h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
            b: h("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
            g: (
                h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
                h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
            ),
            len: 48,
            hash: "sha384",
        },
    }
}
type P = Option<(BigUint, BigUint)>;
impl Curve {
    fn inv(&self, x: &BigUint, m: &BigUint) -> BigUint {
        x.modpow(&(m - 2u32), m)
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        ((a + &self.p) - b) % &self.p
    }
    fn add(&self, a: &P, b: &P) -> P {
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.clone().or(b.clone()) };
        let l = if x1 == x2 {
            if y1 != y2 || y1.bits() == 0 {
                return None;
            }
            // a = -3
            let t = self.sub(&(x1 * x1 * 3u32 % &self.p), &BigUint::from(3u32));
            t * self.inv(&(y1 * 2u32 % &self.p), &self.p) % &self.p
        } else {
            self.sub(y2, y1) * self.inv(&self.sub(x2, x1), &self.p) % &self.p
        };
        let x = self.sub(&self.sub(&(&l * &l % &self.p), x1), x2);
        let y = self.sub(&(l * self.sub(x1, &x) % &self.p), y1);
        Some((x, y))
    }
    fn mul(&self, k: &BigUint, a: &P) -> P {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    /// the point with that x coordinate
    fn at(&self, x: &BigUint, odd: bool) -> P {
        let y2 = (self.sub(&(x * x * x % &self.p), &(x * 3u32 % &self.p)) + &self.b) % &self.p;
        // p = 3 mod 4
        let y = y2.modpow(&((&self.p + 1u32) >> 2), &self.p);
        if &y * &y % &self.p != y2 {
            return None;
        }
        let y = if y.bit(0) == odd { y } else { &self.p - y };
        Some((x.clone(), y))
    }
    fn bytes(&self, x: &BigUint) -> Vec<u8> {
        let v = x.to_bytes_be();
        [vec![0; self.len - v.len()], v].concat()
    }
    fn number(&self, r: &mut Rng, zeros: usize) -> BigUint {
        let mut v = r.bytes(self.len - zeros);
        if r.chance(50) {
            v[0] |= 0x80
        } else {
            v[0] &= 0x7f
        }
        BigUint::from_bytes_be(&v) % (&self.n - 1u32) + 1u32
    }
    /// (public point, r || s) valid for the digest, with that many leading zero bytes
    pub fn made_to_order(&self, r: &mut Rng, digest: &[u8], zr: usize, zs: usize) -> (Vec<u8>, Vec<u8>) {
        loop {
            let rr = self.number(r, zr);
            let pt = self.at(&rr, r.chance(50));
            if pt.is_none() {
                continue;
            }
            let s = self.number(r, zs);
            let e = BigUint::from_bytes_be(digest) % &self.n;
            let w = self.inv(&rr, &self.n);
            let u1 = (&self.n - e) * &w % &self.n;
            let u2 = &s * &w % &self.n;
            let gp = Some(self.g.clone());
            if let Some((x, y)) = self.add(&self.mul(&u1, &gp), &self.mul(&u2, &pt)) {
                return ([vec![4], self.bytes(&x), self.bytes(&y)].concat(), [self.bytes(&rr), self.bytes(&s)].concat());
            }
        }
    }
}
