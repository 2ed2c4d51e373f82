//! Instrumented coefficient types: the integers modulo n (a field for prime n, with zero divisors
//! otherwise), and counted primitives. Every operation is counted on the running thread, and panics
//! once the fuel set for the operation is used up, so that non-termination is decided by logical steps.

use num::{One, Zero};
use std::cell::Cell;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::{
    Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign,
};

thread_local! {
    static MODULUS: Cell<u64> = const { Cell::new(7) };
    static MULS: Cell<u64> = const { Cell::new(0) };
    static OTHER: Cell<u64> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const OUT_OF_FUEL: &str = "VH-OUT-OF-FUEL";

pub fn set_modulus(n: u64) {
    MODULUS.with(|m| m.set(n));
}
pub fn modulus() -> u64 {
    MODULUS.with(Cell::get)
}

#[derive(Debug, Clone, Copy)]
pub struct Count {
    /// Multiplications and divisions.
    pub muls: u64,
    /// Everything else, including tests for zero.
    pub other: u64,
}

struct Refuel;
impl Drop for Refuel {
    fn drop(&mut self) {
        FUEL.with(|f| f.set(u64::MAX));
    }
}

/// Runs `f` with the given number of multiplications/divisions and ten times as many cheap operations.
pub fn counted<T>(fuel: u64, f: impl FnOnce() -> T) -> (T, Count) {
    MULS.with(|m| m.set(0));
    OTHER.with(|m| m.set(0));
    FUEL.with(|m| m.set(fuel));
    let _r = Refuel;
    let out = f();
    let c = Count {
        muls: MULS.with(Cell::get),
        other: OTHER.with(Cell::get),
    };
    (out, c)
}

fn mul_tick() {
    let n = MULS.with(|m| {
        m.set(m.get() + 1);
        m.get()
    });
    if n > FUEL.with(Cell::get) {
        panic!("{}", OUT_OF_FUEL);
    }
}
fn tick() {
    let n = OTHER.with(|m| {
        m.set(m.get() + 1);
        m.get()
    });
    let f = FUEL.with(Cell::get);
    if f != u64::MAX && n > f.saturating_mul(64) {
        panic!("{}", OUT_OF_FUEL);
    }
}

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zn(pub u64);

impl Zn {
    pub fn new(x: i64) -> Zn {
        Zn(x.rem_euclid(modulus() as i64) as u64)
    }
    fn inv(self) -> Zn {
        // Fermat would do for primes; Euclid also detects non-units.
        let n = modulus() as i128;
        let (mut a, mut b, mut x, mut y) = (self.0 as i128, n, 1i128, 0i128);
        while b != 0 {
            let q = a / b;
            (a, b) = (b, a - q * b);
            (x, y) = (y, x - q * y);
        }
        assert!(a == 1, "division by a non-unit of Z/{}", n);
        Zn(x.rem_euclid(n) as u64)
    }
}

impl Add for Zn {
    type Output = Zn;
    fn add(self, o: Zn) -> Zn {
        tick();
        Zn((self.0 + o.0) % modulus())
    }
}
impl Sub for Zn {
    type Output = Zn;
    fn sub(self, o: Zn) -> Zn {
        tick();
        Zn((self.0 + modulus() - o.0) % modulus())
    }
}
impl Neg for Zn {
    type Output = Zn;
    fn neg(self) -> Zn {
        tick();
        Zn((modulus() - self.0) % modulus())
    }
}
impl Mul for Zn {
    type Output = Zn;
    fn mul(self, o: Zn) -> Zn {
        mul_tick();
        Zn((u128::from(self.0) * u128::from(o.0) % u128::from(modulus())) as u64)
    }
}
impl Div for Zn {
    type Output = Zn;
    fn div(self, o: Zn) -> Zn {
        mul_tick();
        Zn((u128::from(self.0) * u128::from(o.inv().0) % u128::from(modulus())) as u64)
    }
}
impl Rem for Zn {
    type Output = Zn;
    fn rem(self, _: Zn) -> Zn {
        Zn(0)
    }
}
impl AddAssign for Zn {
    fn add_assign(&mut self, o: Zn) {
        *self = *self + o;
    }
}
impl SubAssign for Zn {
    fn sub_assign(&mut self, o: Zn) {
        *self = *self - o;
    }
}
impl MulAssign for Zn {
    fn mul_assign(&mut self, o: Zn) {
        *self = *self * o;
    }
}
impl DivAssign for Zn {
    fn div_assign(&mut self, o: Zn) {
        *self = *self / o;
    }
}
impl Zero for Zn {
    fn zero() -> Zn {
        Zn(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0
    }
}
impl One for Zn {
    fn one() -> Zn {
        Zn(1 % modulus())
    }
}

/// A primitive whose operations are counted.
#[derive(Debug, Default, Clone, Copy, PartialEq, PartialOrd)]
pub struct Ct<T>(pub T);

macro_rules! ct_op {
    ($tr:ident $f:ident $tra:ident $fa:ident $tick:ident) => {
        impl<T: $tr<Output = T>> $tr for Ct<T> {
            type Output = Ct<T>;
            fn $f(self, o: Ct<T>) -> Ct<T> {
                $tick();
                Ct(self.0.$f(o.0))
            }
        }
        impl<T: $tr<Output = T> + Copy> $tra for Ct<T> {
            fn $fa(&mut self, o: Ct<T>) {
                $tick();
                self.0 = self.0.$f(o.0);
            }
        }
    };
}
ct_op!(Add add AddAssign add_assign tick);
ct_op!(Sub sub SubAssign sub_assign tick);
ct_op!(Mul mul MulAssign mul_assign mul_tick);
ct_op!(Div div DivAssign div_assign mul_tick);
ct_op!(Rem rem RemAssign rem_assign mul_tick);
impl RemAssign for Zn {
    fn rem_assign(&mut self, o: Zn) {
        *self = *self % o;
    }
}

// What code which is generic in the coefficients might also ask of them.
macro_rules! by_ref {
    ($($tr:ident $f:ident $tra:ident $fa:ident;)*) => {$(
        impl<'a> $tr<&'a Zn> for Zn {
            type Output = Zn;
            fn $f(self, o: &'a Zn) -> Zn {
                $tr::$f(self, *o)
            }
        }
        impl<'a> $tra<&'a Zn> for Zn {
            fn $fa(&mut self, o: &'a Zn) {
                $tra::$fa(self, *o)
            }
        }
        impl<'a, T: $tr<Output = T> + Copy> $tr<&'a Ct<T>> for Ct<T> {
            type Output = Ct<T>;
            fn $f(self, o: &'a Ct<T>) -> Ct<T> {
                $tr::$f(self, *o)
            }
        }
        impl<'a, T: $tr<Output = T> + Copy> $tra<&'a Ct<T>> for Ct<T> {
            fn $fa(&mut self, o: &'a Ct<T>) {
                $tra::$fa(self, *o)
            }
        }
    )*};
}
by_ref! {
    Add add AddAssign add_assign;
    Sub sub SubAssign sub_assign;
    Mul mul MulAssign mul_assign;
    Div div DivAssign div_assign;
    Rem rem RemAssign rem_assign;
}
macro_rules! folds {
    ($tr:ident $f:ident $unit:ident $op:ident) => {
        impl $tr for Zn {
            fn $f<I: Iterator<Item = Zn>>(i: I) -> Zn {
                i.fold(Zn::$unit(), Zn::$op)
            }
        }
        impl<'a> $tr<&'a Zn> for Zn {
            fn $f<I: Iterator<Item = &'a Zn>>(i: I) -> Zn {
                i.fold(Zn::$unit(), |a, b| a.$op(*b))
            }
        }
        impl<T: Zero + One + Copy> $tr for Ct<T> {
            fn $f<I: Iterator<Item = Ct<T>>>(i: I) -> Ct<T> {
                i.fold(Ct::$unit(), |a, b| a.$op(b))
            }
        }
        impl<'a, T: Zero + One + Copy> $tr<&'a Ct<T>> for Ct<T> {
            fn $f<I: Iterator<Item = &'a Ct<T>>>(i: I) -> Ct<T> {
                i.fold(Ct::$unit(), |a, b| a.$op(*b))
            }
        }
    };
}
folds!(Sum sum zero add);
folds!(Product product one mul);
impl fmt::Display for Zn {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: fmt::Display> fmt::Display for Ct<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Neg<Output = T>> Neg for Ct<T> {
    type Output = Ct<T>;
    fn neg(self) -> Ct<T> {
        tick();
        Ct(-self.0)
    }
}
impl<T: Zero> Zero for Ct<T> {
    fn zero() -> Self {
        Ct(T::zero())
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0.is_zero()
    }
}
impl<T: One> One for Ct<T> {
    fn one() -> Self {
        Ct(T::one())
    }
}
