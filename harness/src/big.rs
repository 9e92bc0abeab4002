//! Independent arbitrary-precision unsigned integers (1024 bits, aborts beyond), the arithmetic of all
//! oracles. Schoolbook algorithms only; nothing of `bignumber`, `bigint` or `cosmwasm_std` is used.
use std::cmp::Ordering;
use std::fmt;

const N: usize = 32; // 32-bit limbs, little endian

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct B(pub [u32; N]);

impl B {
    pub const ZERO: B = B([0; N]);

    pub fn new(v: u128) -> B {
        let mut l = [0u32; N];
        for i in 0..4 {
            l[i] = (v >> (32 * i)) as u32;
        }
        B(l)
    }
    pub fn one() -> B {
        B::new(1)
    }
    /// 2^k
    pub fn pow2(k: usize) -> B {
        let mut l = [0u32; N];
        l[k / 32] = 1 << (k % 32);
        B(l)
    }
    pub fn pow10(k: u32) -> B {
        let mut r = B::one();
        for _ in 0..k {
            r = r * B::new(10);
        }
        r
    }
    pub fn e18() -> B {
        B::new(1_000_000_000_000_000_000)
    }
    /// little-endian 64-bit words
    pub fn from_words(w: &[u64; 4]) -> B {
        let mut l = [0u32; N];
        for i in 0..4 {
            l[2 * i] = w[i] as u32;
            l[2 * i + 1] = (w[i] >> 32) as u32;
        }
        B(l)
    }
    pub fn to_words(&self) -> Option<[u64; 4]> {
        if self.bits() > 256 {
            return None;
        }
        let mut w = [0u64; 4];
        for i in 0..4 {
            w[i] = self.0[2 * i] as u64 | (self.0[2 * i + 1] as u64) << 32;
        }
        Some(w)
    }
    pub fn bits(&self) -> usize {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return 32 * i + 32 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn is_zero(&self) -> bool {
        self.bits() == 0
    }
    pub fn u128(&self) -> Option<u128> {
        if self.bits() > 128 {
            return None;
        }
        let mut v = 0u128;
        for i in 0..4 {
            v |= (self.0[i] as u128) << (32 * i);
        }
        Some(v)
    }
    pub fn fits256(&self) -> bool {
        self.bits() <= 256
    }
    pub fn checked_sub(&self, o: &B) -> Option<B> {
        if *self < *o {
            return None;
        }
        let mut r = [0u32; N];
        let mut borrow = 0i64;
        for i in 0..N {
            let mut d = self.0[i] as i64 - o.0[i] as i64 - borrow;
            borrow = 0;
            if d < 0 {
                d += 1 << 32;
                borrow = 1;
            }
            r[i] = d as u32;
        }
        Some(B(r))
    }
    pub fn sat_sub(&self, o: &B) -> B {
        self.checked_sub(o).unwrap_or(B::ZERO)
    }
    /// (quotient, remainder); panics on zero divisor
    pub fn divrem(&self, d: &B) -> (B, B) {
        assert!(!d.is_zero(), "oracle division by zero");
        let n = self.bits();
        if d.bits() <= 32 {
            let dv = d.0[0] as u64;
            let mut q = [0u32; N];
            let mut rem = 0u64;
            for i in (0..N).rev() {
                let cur = rem << 32 | self.0[i] as u64;
                q[i] = (cur / dv) as u32;
                rem = cur % dv;
            }
            return (B(q), B::new(rem as u128));
        }
        let top = n.max(d.bits()) / 32 + 2;
        let mut q = [0u32; N];
        let mut r = [0u32; N];
        for i in (0..n).rev() {
            // r = 2r + bit
            let mut c = (self.0[i / 32] >> (i % 32)) & 1;
            for l in r.iter_mut().take(top.min(N)) {
                let nc = *l >> 31;
                *l = *l << 1 | c;
                c = nc;
            }
            if B(r) >= *d {
                r = B(r).checked_sub(d).unwrap().0;
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (B(q), B(r))
    }
    pub fn div(&self, d: &B) -> B {
        self.divrem(d).0
    }
    pub fn ceil_div(&self, d: &B) -> B {
        let (q, r) = self.divrem(d);
        if r.is_zero() {
            q
        } else {
            q + B::one()
        }
    }
    pub fn isqrt(&self) -> B {
        // bitwise
        let mut r = B::ZERO;
        let mut k = (self.bits() + 1) / 2;
        while k > 0 {
            k -= 1;
            let c = r + B::pow2(k);
            if c * c <= *self {
                r = c;
            }
        }
        r
    }
    pub fn parse(s: &str) -> Option<B> {
        if s.is_empty() {
            return None;
        }
        let mut r = B::ZERO;
        for c in s.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            r = r * B::new(10) + B::new((c - b'0') as u128);
        }
        Some(r)
    }
}

impl std::ops::Add for B {
    type Output = B;
    fn add(self, o: B) -> B {
        let mut r = [0u32; N];
        let mut c = 0u64;
        for i in 0..N {
            let s = self.0[i] as u64 + o.0[i] as u64 + c;
            r[i] = s as u32;
            c = s >> 32;
        }
        assert!(c == 0, "oracle overflow");
        B(r)
    }
}
impl std::ops::Sub for B {
    type Output = B;
    fn sub(self, o: B) -> B {
        self.checked_sub(&o).expect("oracle underflow")
    }
}
impl std::ops::Mul for B {
    type Output = B;
    fn mul(self, o: B) -> B {
        let mut r = [0u32; N];
        let (na, nb) = ((self.bits() + 31) / 32, (o.bits() + 31) / 32);
        assert!(na + nb <= N + 1, "oracle overflow");
        for i in 0..na {
            let mut c = 0u64;
            for j in 0..nb {
                if i + j >= N {
                    assert!(self.0[i] == 0 || o.0[j] == 0, "oracle overflow");
                    continue;
                }
                let t = r[i + j] as u64 + self.0[i] as u64 * o.0[j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            if c != 0 {
                assert!(i + nb < N, "oracle overflow");
                r[i + nb] = c as u32;
            }
        }
        B(r)
    }
}
impl PartialOrd for B {
    fn partial_cmp(&self, o: &B) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for B {
    fn cmp(&self, o: &B) -> Ordering {
        for i in (0..N).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
impl fmt::Display for B {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.is_zero() {
            return write!(f, "0");
        }
        let mut parts = vec![];
        let mut v = *self;
        let d = B::new(1_000_000_000);
        while !v.is_zero() {
            let (q, r) = v.divrem(&d);
            parts.push(r.0[0]);
            v = q;
        }
        let mut s = parts.pop().unwrap().to_string();
        while let Some(p) = parts.pop() {
            s += &format!("{:09}", p);
        }
        write!(f, "{}", s)
    }
}
impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

/// a/b compared with c/d (b, d > 0)
pub fn cmp_ratio(a: &B, b: &B, c: &B, d: &B) -> Ordering {
    (*a * *d).cmp(&(*c * *b))
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        let a = B::parse("123456789012345678901234567890123456789012345678901234567890").unwrap();
        let b = B::new(987654321098765432109876543210);
        assert_eq!(a.to_string(), "123456789012345678901234567890123456789012345678901234567890");
        let (q, r) = a.divrem(&b);
        assert_eq!(q * b + r, a);
        assert!(r < b);
        assert_eq!((a * a).isqrt(), a);
        assert_eq!((a * a - B::one()).isqrt(), a - B::one());
        for x in [0u128, 1, 2, 3, u64::MAX as u128, 1 << 64, u128::MAX] {
            for y in [1u128, 2, 7, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX] {
                assert_eq!(B::new(x).divrem(&B::new(y)), (B::new(x / y), B::new(x % y)));
                let p = B::new(x) * B::new(y);
                if let Some(v) = x.checked_mul(y) {
                    assert_eq!(p.u128(), Some(v));
                }
                assert_eq!(p.divrem(&B::new(y)), (B::new(x), B::ZERO));
            }
        }
    }
}
