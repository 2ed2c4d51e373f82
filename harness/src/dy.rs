//! Exact arithmetic on dyadic numbers m * 2^e. Integers have e = 0, and every finite float is dyadic,
//! so one model type gives the exact value of every primitive coefficient.

use num::{BigInt, One, Signed, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Dy {
    pub m: BigInt,
    pub e: i64,
}

impl Dy {
    pub fn zero() -> Self {
        Dy {
            m: BigInt::zero(),
            e: 0,
        }
    }
    pub fn one() -> Self {
        Dy::int(1)
    }
    pub fn int(x: i128) -> Self {
        Dy {
            m: BigInt::from(x),
            e: 0,
        }
    }
    pub fn big(m: BigInt) -> Self {
        Dy { m, e: 0 }
    }
    pub fn pow2(e: i64) -> Self {
        Dy {
            m: BigInt::one(),
            e,
        }
    }
    pub fn from_f64(x: f64) -> Option<Self> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Dy::zero());
        }
        let bits = x.to_bits();
        let neg = bits >> 63 == 1;
        let exp = ((bits >> 52) & 0x7ff) as i64;
        let frac = bits & ((1 << 52) - 1);
        let (mut m, mut e) = if exp == 0 {
            (frac, -1074)
        } else {
            (frac | (1 << 52), exp - 1075)
        };
        let tz = m.trailing_zeros();
        m >>= tz;
        e += i64::from(tz);
        // Whole numbers keep exponent 0, so that they share a grid.
        if e > 0 && e + 64 - i64::from(m.leading_zeros()) <= 63 {
            m <<= e;
            e = 0;
        }
        let m = BigInt::from(m);
        Some(Dy {
            m: if neg { -m } else { m },
            e,
        })
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }
    pub fn is_neg(&self) -> bool {
        self.m.is_negative()
    }
    pub fn abs(&self) -> Dy {
        Dy {
            m: self.m.abs(),
            e: self.e,
        }
    }
    pub fn neg(&self) -> Dy {
        Dy {
            m: -&self.m,
            e: self.e,
        }
    }
    fn at(&self, e: i64) -> BigInt {
        debug_assert!(self.e >= e);
        if self.e == e {
            self.m.clone()
        } else {
            &self.m << ((self.e - e) as usize)
        }
    }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.e.min(o.e);
        Dy {
            m: self.at(e) + o.at(e),
            e,
        }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        if self.is_zero() || o.is_zero() {
            return Dy::zero();
        }
        Dy {
            m: &self.m * &o.m,
            e: self.e + o.e,
        }
    }
    pub fn pow(&self, n: usize) -> Dy {
        let mut acc = Dy::one();
        let mut base = self.clone();
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                acc = acc.mul(&base);
            }
            n >>= 1;
            if n > 0 {
                base = base.mul(&base);
            }
        }
        acc
    }
    /// log2 of the magnitude, rounded up (i64::MIN for zero).
    pub fn log2_up(&self) -> i64 {
        if self.is_zero() {
            i64::MIN / 4
        } else {
            self.m.bits() as i64 + self.e
        }
    }
    /// Drops factors of two from the mantissa.
    pub fn normal(&self) -> Dy {
        if self.m.is_zero() {
            return Dy::zero();
        }
        let tz = self.m.trailing_zeros().unwrap_or(0);
        Dy {
            m: &self.m >> (tz as usize),
            e: self.e + tz as i64,
        }
    }
    /// A float near the value (for tolerances only).
    pub fn approx(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let bits = self.m.bits() as i64;
        let sh = (bits - 60).max(0);
        let top: BigInt = &self.m >> (sh as usize);
        let mut v = 0f64;
        let s = top.to_string();
        if let Ok(x) = s.parse::<f64>() {
            v = x;
        }
        let e = self.e + sh;
        if e > 2000 {
            return v.signum() * f64::INFINITY;
        }
        if e < -2200 {
            return 0.0;
        }
        v * 2f64.powi((e / 2) as i32) * 2f64.powi((e - e / 2) as i32)
    }
}

impl PartialEq for Dy {
    fn eq(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Dy {}
impl PartialOrd for Dy {
    fn partial_cmp(&self, o: &Dy) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Dy {
    fn cmp(&self, o: &Dy) -> Ordering {
        if self.e == o.e {
            return self.m.cmp(&o.m);
        }
        if self.is_zero() || o.is_zero() || self.is_neg() != o.is_neg() {
            return self.m.cmp(&o.m);
        }
        // Avoid giant shifts when the magnitudes are far apart.
        let (a, b) = (self.log2_up(), o.log2_up());
        if (a - b).abs() > 2 {
            let c = a.cmp(&b);
            return if self.is_neg() { c.reverse() } else { c };
        }
        let e = self.e.min(o.e);
        self.at(e).cmp(&o.at(e))
    }
}
