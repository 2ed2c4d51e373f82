//! The primitive coefficient types, and the exact value of each coefficient.

use crate::dy::Dy;
use crate::rng::Rng;
use num::{BigInt, Num, One, Signed, Zero};
use std::fmt::{Debug, Display};
use std::iter::{Product, Sum};
use std::ops::{AddAssign, DivAssign, MulAssign, RemAssign, SubAssign};
use std::str::FromStr;

pub trait Coef:
    Num
    + Copy
    + Debug
    + Display
    + FromStr
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
    + Default
    + Sum
    + Product
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + PartialOrd
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    const SIGNED: bool;
    const FLOAT: bool;
    /// Bits of magnitude which are exact: 7 for i8, 8 for u8, 24 for f32.
    const BITS: u32;
    /// The value, or None for NaN and infinities.
    fn dy(self) -> Option<Dy>;
    /// The coefficient with exactly this value, if there is one.
    fn from_dy(d: &Dy) -> Option<Self>;
    fn min_v() -> Self;
    fn max_v() -> Self;
    /// Any finite value, with random bits.
    fn random_bits(rng: &mut Rng) -> Self;
    /// Whether sums and products whose terms' magnitudes add up to `bound` are exact in this type,
    /// whatever the order of operations.
    fn fits(bound: &Dy) -> bool;
    /// A zero, which for floats might be negative.
    fn some_zero(rng: &mut Rng) -> Self;
}

macro_rules! int_coef {
    ($($t:ident $signed:expr, $bits:expr;)*) => {$(
        impl Coef for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = $signed;
            const FLOAT: bool = false;
            const BITS: u32 = $bits;
            fn dy(self) -> Option<Dy> {
                Some(Dy::big(BigInt::from(self)))
            }
            fn from_dy(d: &Dy) -> Option<Self> {
                let d = d.normal();
                if d.e < 0 || d.e > 200 {
                    return None;
                }
                <$t>::try_from(d.m << (d.e as usize)).ok()
            }
            fn min_v() -> Self { <$t>::MIN }
            fn max_v() -> Self { <$t>::MAX }
            fn random_bits(rng: &mut Rng) -> Self { rng.u128() as $t }
            fn fits(bound: &Dy) -> bool {
                *bound <= Dy::big(BigInt::from(<$t>::MAX))
            }
            fn some_zero(_: &mut Rng) -> Self { 0 }
        }
    )*};
}

int_coef! {
    u8 false, 8; u16 false, 16; u32 false, 32; u64 false, 64; u128 false, 128; usize false, 64;
    i8 true, 7; i16 true, 15; i32 true, 31; i64 true, 63; i128 true, 127; isize true, 63;
}

macro_rules! float_coef {
    // Operations are kept within 2^emin to 2^emax; values are finite multiples of 2^sub below 2^top.
    ($t:ident, $bits:expr, $emin:expr, $emax:expr, $sub:expr, $top:expr, $int:ident) => {
        impl Coef for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = true;
            const FLOAT: bool = true;
            const BITS: u32 = $bits;
            fn dy(self) -> Option<Dy> {
                Dy::from_f64(f64::from(self))
            }
            fn from_dy(d: &Dy) -> Option<Self> {
                if d.is_zero() {
                    return Some(0.0);
                }
                let d = d.normal();
                if d.m.bits() > $bits || d.e < $sub || d.e + d.m.bits() as i64 > $top {
                    return None;
                }
                let m = i64::try_from(&d.m).ok()? as $t;
                let h = (d.e / 2) as i32;
                let v = m * (2 as $t).powi(h) * (2 as $t).powi(d.e as i32 - h);
                if v.dy()? == d { Some(v) } else { None }
            }
            fn min_v() -> Self { $t::MIN }
            fn max_v() -> Self { $t::MAX }
            fn random_bits(rng: &mut Rng) -> Self {
                loop {
                    let v = $t::from_bits(rng.u64() as $int);
                    if v.is_finite() {
                        return v;
                    }
                }
            }
            fn fits(bound: &Dy) -> bool {
                bound.is_zero()
                    || (bound.m.bits() <= $bits
                        && bound.e >= $emin
                        && bound.e + (bound.m.bits() as i64) < $emax)
            }
            fn some_zero(rng: &mut Rng) -> Self {
                if rng.chance(30) { -0.0 } else { 0.0 }
            }
        }
    };
}

float_coef!(f32, 24, -120, 120, -149, 128, u32);
float_coef!(f64, 53, -1000, 1000, -1074, 1024, u64);

/// Calls `$f::<T>($args)` for a primitive type chosen by `$n`.
#[macro_export]
macro_rules! by_type {
    (all, $n:expr, $f:ident ( $($a:expr),* )) => {
        match $n % 14 {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*), 5 => $f::<usize>($($a),*),
            6 => $f::<i8>($($a),*), 7 => $f::<i16>($($a),*), 8 => $f::<i32>($($a),*),
            9 => $f::<i64>($($a),*), 10 => $f::<i128>($($a),*), 11 => $f::<isize>($($a),*),
            12 => $f::<f32>($($a),*), _ => $f::<f64>($($a),*),
        }
    };
    (signed, $n:expr, $f:ident ( $($a:expr),* )) => {
        match $n % 8 {
            0 => $f::<i8>($($a),*), 1 => $f::<i16>($($a),*), 2 => $f::<i32>($($a),*),
            3 => $f::<i64>($($a),*), 4 => $f::<i128>($($a),*), 5 => $f::<isize>($($a),*),
            6 => $f::<f32>($($a),*), _ => $f::<f64>($($a),*),
        }
    };
    (unsigned, $n:expr, $f:ident ( $($a:expr),* )) => {
        match $n % 6 {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*), _ => $f::<usize>($($a),*),
        }
    };
    // Types with derivatives and integrals.
    (calculus, $n:expr, $f:ident ( $($a:expr),* )) => {
        match $n % 12 {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*),
            5 => $f::<i8>($($a),*), 6 => $f::<i16>($($a),*), 7 => $f::<i32>($($a),*),
            8 => $f::<i64>($($a),*), 9 => $f::<i128>($($a),*),
            10 => $f::<f32>($($a),*), _ => $f::<f64>($($a),*),
        }
    };
}

/// A magnitude of at most `bits` bits, favouring small and boundary values.
pub fn magnitude(rng: &mut Rng, bits: u32) -> BigInt {
    if bits == 0 {
        return BigInt::zero();
    }
    let top = (BigInt::one() << (bits as usize)) - 1;
    let v = match rng.below(10) {
        0..=2 => BigInt::from(rng.below(12)),
        3 => {
            // 2^k, 2^k - 1 or 2^k + 1
            let k = rng.usize(bits as usize + 1);
            (BigInt::one() << k) + rng.range(-1, 1)
        }
        4 => &top - BigInt::from(rng.below(3)),
        5 => BigInt::from(
            *rng.pick(&[10u32, 16, 50, 64, 99, 100, 101, 120, 127, 128, 200, 255, 256, 257, 999, 1000, 1024, 65535, 65536]),
        ),
        _ => {
            let b = rng.below(u64::from(bits)) as u32 + 1;
            BigInt::from(rng.u128()) & ((BigInt::one() << (b as usize)) - 1)
        }
    };
    if v.is_negative() {
        BigInt::zero()
    } else if v > top {
        v & top
    } else {
        v
    }
}

/// A coefficient of at most `bits` bits times 2^scale (scale is ignored for integers).
pub fn coef<N: Coef>(rng: &mut Rng, bits: u32, scale: i64) -> Dy {
    let bits = bits.min(N::BITS);
    let mut m = magnitude(rng, bits);
    if N::SIGNED && rng.bool() {
        m = -m;
    }
    Dy {
        m,
        e: if N::FLOAT { scale } else { 0 },
    }
}

/// Any finite value of the type, favouring extremes.
pub fn any_coef<N: Coef>(rng: &mut Rng) -> N {
    match rng.below(10) {
        0 => N::max_v(),
        1 => N::min_v(),
        2 => N::one(),
        3 if N::SIGNED => N::zero() - N::one(),
        4 => N::some_zero(rng),
        5 | 6 => {
            let b = rng.below(u64::from(N::BITS)) as u32 + 1;
            let s = if N::FLOAT { rng.range(-8, 8) } else { 0 };
            let d = coef::<N>(rng, b, s);
            N::from_dy(&d).unwrap_or_else(N::one)
        }
        7 if N::FLOAT => {
            // Close to a small integer.
            let k = rng.range(1, 4);
            let b = i64::from(N::BITS) - 3;
            let m = (BigInt::from(k) << b as usize) + rng.range(-2, 2);
            let m = if rng.bool() { m } else { -m };
            N::from_dy(&Dy { m, e: -b }).unwrap_or_else(N::one)
        }
        _ => N::random_bits(rng),
    }
}
