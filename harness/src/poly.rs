//! The abstract polynomial (a finite map from degree to non-zero exact coefficient), and how values
//! of the real types are built from it and read back, through their public storage.

use crate::coef::{coef, Coef};
use crate::dy::Dy;
use crate::rng::{mix, Rng};
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::collections::BTreeMap;
use std::fmt::{Debug, Write};

#[derive(Clone, PartialEq, Debug, Default)]
pub struct MP {
    pub t: BTreeMap<usize, Dy>,
}

impl MP {
    pub fn zero() -> Self {
        MP::default()
    }
    pub fn constant(c: Dy) -> Self {
        MP::term(c, 0)
    }
    pub fn term(c: Dy, deg: usize) -> Self {
        let mut p = MP::zero();
        p.add_term(&c, deg);
        p
    }
    pub fn get(&self, deg: usize) -> Dy {
        self.t.get(&deg).cloned().unwrap_or_else(Dy::zero)
    }
    pub fn add_term(&mut self, c: &Dy, deg: usize) {
        if c.is_zero() {
            return;
        }
        let v = match self.t.get(&deg) {
            None => c.clone(),
            Some(old) => old.add(c),
        };
        if v.is_zero() {
            self.t.remove(&deg);
        } else {
            self.t.insert(deg, v);
        }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn degree(&self) -> Option<usize> {
        self.t.keys().next_back().copied()
    }
    pub fn map(&self, f: impl Fn(&Dy) -> Dy) -> MP {
        let mut p = MP::zero();
        for (d, c) in &self.t {
            p.add_term(&f(c), *d);
        }
        p
    }
    pub fn neg(&self) -> MP {
        self.map(Dy::neg)
    }
    pub fn abs(&self) -> MP {
        self.map(Dy::abs)
    }
    pub fn scale(&self, c: &Dy) -> MP {
        self.map(|x| x.mul(c))
    }
    pub fn add(&self, o: &MP) -> MP {
        let mut p = self.clone();
        for (d, c) in &o.t {
            p.add_term(c, *d);
        }
        p
    }
    pub fn sub(&self, o: &MP) -> MP {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &MP) -> MP {
        let mut p = MP::zero();
        for (d, c) in &self.t {
            for (e, k) in &o.t {
                p.add_term(&c.mul(k), d + e);
            }
        }
        p
    }
    pub fn shl(&self, n: usize) -> MP {
        MP {
            t: self.t.iter().map(|(d, c)| (d + n, c.clone())).collect(),
        }
    }
    pub fn shr(&self, n: usize) -> MP {
        MP {
            t: self
                .t
                .iter()
                .filter(|(d, _)| **d >= n)
                .map(|(d, c)| (d - n, c.clone()))
                .collect(),
        }
    }
    pub fn eval(&self, x: &Dy) -> Dy {
        let mut s = Dy::zero();
        for (d, c) in &self.t {
            s = s.add(&c.mul(&x.pow(*d)));
        }
        s
    }
    /// The largest of a polynomial's coefficients (used with abs()).
    pub fn fits<N: Coef>(&self) -> bool {
        self.t.values().all(|c| N::fits(c))
    }
    /// Whether all coefficients, put on one grid, are exact (floats are summed across degrees
    /// nowhere, so a per-coefficient test is enough for most operations).
    pub fn hash(&self) -> u64 {
        let mut h = 0x5151u64;
        for (d, c) in &self.t {
            h = mix(h ^ *d as u64);
            let n = c.normal();
            h = mix(h ^ n.e as u64);
            for x in n.m.iter_u64_digits() {
                h = mix(h ^ x);
            }
            h = mix(h ^ u64::from(c.is_neg()));
        }
        h
    }
    pub fn show(&self) -> String {
        if self.t.is_empty() {
            return "0".to_string();
        }
        let mut s = String::new();
        for (i, (d, c)) in self.t.iter().rev().enumerate() {
            if i > 40 {
                let _ = write!(s, " ... ({} terms)", self.t.len());
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            let n = c.normal();
            if n.e == 0 {
                let _ = write!(s, "{}", n.m);
            } else if n.e > 0 && n.e < 128 {
                let _ = write!(s, "{}", n.m << (n.e as usize));
            } else {
                let _ = write!(s, "{}*2^{}", n.m, n.e);
            }
            let _ = write!(s, "*x^{}", d);
        }
        s
    }
}

/// A number of coefficients: mostly small, sometimes around powers of two, sometimes large.
pub fn length(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(100) {
        0..=54 => rng.usize(9),
        55..=79 => rng.usize(20),
        80..=92 => {
            let k = 1usize << (3 + rng.usize(5));
            (k + rng.usize(4)).saturating_sub(1)
        }
        93..=97 => rng.usize(70),
        98 => {
            let k = 1usize << (5 + rng.usize(7));
            (k + rng.usize(4)).saturating_sub(1)
        }
        _ => rng.usize(max + 1),
    };
    n.min(max)
}

/// The length of a run in a vector of `len`: short, around a power of two, or most of it.
pub fn run_length(rng: &mut Rng, len: usize) -> usize {
    let n = match rng.below(4) {
        0 => rng.usize(3),
        1 => rng.usize(12),
        2 => ((1usize << rng.usize(12)) + rng.usize(4)).saturating_sub(2),
        _ => rng.usize(len + 1),
    };
    n.max(1)
}

/// A vector of `len` zeros with runs of values.
pub fn gappy<T: Clone>(rng: &mut Rng, len: usize, zero: T, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v = vec![zero; len];
    let (mut i, mut blank) = (0, rng.bool());
    while i < len {
        let mut run = run_length(rng, len);
        if !blank {
            run = run.min(1 + rng.usize(8));
            for x in v.iter_mut().skip(i).take(run) {
                *x = f(rng);
            }
        }
        i += run;
        blank = !blank;
    }
    v
}

/// A polynomial with about `len` coefficients, of at most `bits` bits.
pub fn gen_dense<N: Coef>(rng: &mut Rng, len: usize, bits: u32, scale: i64) -> MP {
    let mut p = MP::zero();
    let style = rng.below(9);
    // Style 3: runs of zeros and of non-zero coefficients.
    let (mut run, mut blank) = (0usize, rng.bool());
    for d in 0..len {
        if style == 3 {
            if run == 0 {
                run = run_length(rng, len);
                blank = !blank;
            }
            run -= 1;
            if blank {
                continue;
            }
        }
        let c = match style {
            0 if rng.chance(70) => Dy::zero(),
            1 => {
                let c = Dy {
                    m: 1.into(),
                    e: if N::FLOAT { scale } else { 0 },
                };
                if N::SIGNED && rng.bool() {
                    c.neg()
                } else {
                    c
                }
            }
            2 if d + 1 < len && d > 0 => Dy::zero(),
            _ => coef::<N>(rng, bits, scale),
        };
        p.add_term(&c, d);
    }
    p
}

/// A degree: small, medium or huge (up to `max`).
pub fn degree(rng: &mut Rng, max: usize) -> usize {
    let d = match rng.below(10) {
        0..=3 => rng.usize(8),
        4..=5 => rng.usize(300),
        6 => rng.usize(100_000),
        7 => {
            let k = rng.usize(62);
            ((1usize << k) + rng.usize(3)).saturating_sub(1)
        }
        8 => (1usize << 32).wrapping_add(rng.usize(5)).wrapping_sub(2),
        _ if rng.chance(25) => max.saturating_sub(rng.usize(4)),
        _ => rng.u64() as usize >> rng.usize(63),
    };
    d.min(max)
}

/// A polynomial with at most `n` terms of degree at most `max`.
pub fn gen_sparse<N: Coef>(rng: &mut Rng, n: usize, max: usize, bits: u32, scale: i64) -> MP {
    let mut p = MP::zero();
    for _ in 0..n {
        let c = coef::<N>(rng, bits, scale);
        let d = degree(rng, max);
        if p.t.contains_key(&d) {
            continue;
        }
        p.add_term(&c, d);
    }
    p
}

pub fn scale_of<N: Coef>(rng: &mut Rng) -> i64 {
    if N::FLOAT {
        *rng.pick(&[0i64, 0, -1, -2, -3, 1, 2, 5, -7])
    } else {
        0
    }
}

pub fn nz<N: Coef>(c: &Dy) -> N {
    N::from_dy(c).unwrap_or_else(|| panic!("harness: {:?} is not a {}", c, N::NAME))
}

/// The five concrete types.
pub trait PolyT<N: Coef>: Own + Debug + PartialEq + Sized {
    const T: &'static str;
    /// Builds a value with a randomly chosen representation, or None if it has no such value.
    fn build(p: &MP, rng: &mut Rng) -> Option<Self>;
    /// Reads the value from public storage.
    fn val(&self) -> Result<MP, String>;
}

thread_local! {
    static COPIES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Restarts the choices of `Own` (at the start of each case, so that replays repeat them).
pub fn restart_copies(seed: u64) {
    COPIES.with(|c| c.set(seed));
}

/// A vector of the same elements with room to grow, or without: operations that take their operand
/// by value may reuse its storage.
pub fn roomy<T: Clone>(v: &[T]) -> Vec<T> {
    let k = COPIES.with(|c| {
        c.set(c.get().wrapping_add(0x9E37_79B9_7F4A_7C15));
        mix(c.get())
    });
    let room = match k % 8 {
        0..=2 => 0,
        3 => 1,
        4 => 2,
        5 => 1 + (k >> 8) as usize % 8,
        6 => v.len() + (k >> 8) as usize % 3,
        _ => 70,
    };
    let mut w = Vec::with_capacity(v.len() + room);
    w.extend_from_slice(v);
    w
}

/// A copy of a value for an operation to consume: dense polynomials get storage with or without
/// spare capacity.
pub trait Own: Clone {
    fn own(&self) -> Self {
        self.clone()
    }
}
impl<N: Clone> Own for Polynomial<N> {
    fn own(&self) -> Self {
        Polynomial { terms: roomy(&self.terms) }
    }
}
impl<N: Clone> Own for SparsePolynomial<N> {}
impl<N: Clone> Own for Monomial<N> {}
impl<N: Clone> Own for LinearBinomial<N> {}
impl<N: Clone> Own for QuadraticTrinomial<N> {}

fn put<N: Coef>(p: &mut MP, c: N, deg: usize) -> Result<(), String> {
    let d = c
        .dy()
        .ok_or_else(|| format!("non-finite coefficient {} at degree {}", c, deg))?;
    p.add_term(&d, deg);
    Ok(())
}

/// Coefficients in descending degree, with `pad` leading zeros.
pub fn coeffs<N: Coef>(p: &MP, pad: usize, rng: &mut Rng) -> Vec<N> {
    let len = p.degree().map_or(0, |d| d + 1);
    assert!(len < 1 << 26, "harness: dense polynomial too large");
    let mut v = Vec::with_capacity(len + pad);
    for _ in 0..pad {
        v.push(N::some_zero(rng));
    }
    for d in (0..len).rev() {
        match p.t.get(&d) {
            None => v.push(N::some_zero(rng)),
            Some(c) => v.push(nz(c)),
        }
    }
    v
}

pub fn padding(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0..=5 => 0,
        6 => 1,
        7 => rng.usize(4),
        8 => rng.usize(9),
        _ if rng.chance(8) => ((1usize << (5 + rng.usize(6))) + rng.usize(4)).saturating_sub(2),
        _ => rng.usize(40),
    }
}

pub fn dense<N: Coef>(p: &MP, rng: &mut Rng) -> Polynomial<N> {
    let pad = padding(rng);
    Polynomial {
        terms: roomy(&coeffs(p, pad, rng)),
    }
}

pub fn sparse<N: Coef>(p: &MP, rng: &mut Rng) -> SparsePolynomial<N> {
    let mut terms: BTreeMap<usize, N> = p.t.iter().map(|(d, c)| (*d, nz(c))).collect();
    if rng.chance(40) {
        for _ in 0..rng.usize(4) + 1 {
            let top = p.degree().unwrap_or(3).min(usize::MAX / 8);
            let d = match rng.below(4) {
                0 => top + 1 + rng.usize(5),
                1 => rng.usize(top + 2),
                2 => 0,
                _ => rng.usize(12),
            };
            terms.entry(d).or_insert_with(|| N::some_zero(rng));
        }
    }
    SparsePolynomial { terms }
}

impl<N: Coef> PolyT<N> for Polynomial<N> {
    const T: &'static str = "Polynomial";
    fn build(p: &MP, rng: &mut Rng) -> Option<Self> {
        if p.degree().map_or(false, |d| d > 1 << 22) {
            return None;
        }
        Some(dense(p, rng))
    }
    fn val(&self) -> Result<MP, String> {
        let mut p = MP::zero();
        let n = self.terms.len();
        for (i, c) in self.terms.iter().enumerate() {
            put(&mut p, *c, n - 1 - i)?;
        }
        Ok(p)
    }
}

impl<N: Coef> PolyT<N> for SparsePolynomial<N> {
    const T: &'static str = "SparsePolynomial";
    fn build(p: &MP, rng: &mut Rng) -> Option<Self> {
        Some(sparse(p, rng))
    }
    fn val(&self) -> Result<MP, String> {
        let mut p = MP::zero();
        for (d, c) in &self.terms {
            put(&mut p, *c, *d)?;
        }
        Ok(p)
    }
}

impl<N: Coef> PolyT<N> for Monomial<N> {
    const T: &'static str = "Monomial";
    fn build(p: &MP, rng: &mut Rng) -> Option<Self> {
        match p.t.len() {
            0 => Some(Monomial::new(N::some_zero(rng), if rng.bool() { 0 } else { rng.usize(9) })),
            1 => {
                let (d, c) = p.t.iter().next().unwrap();
                Some(Monomial::new(nz(c), *d))
            }
            _ => None,
        }
    }
    fn val(&self) -> Result<MP, String> {
        let mut p = MP::zero();
        put(&mut p, self.coefficient, self.deg)?;
        Ok(p)
    }
}

impl<N: Coef> PolyT<N> for LinearBinomial<N> {
    const T: &'static str = "LinearBinomial";
    fn build(p: &MP, rng: &mut Rng) -> Option<Self> {
        if p.degree().map_or(false, |d| d > 1) {
            return None;
        }
        let mut c = |d: usize| match p.t.get(&d) {
            None => N::some_zero(rng),
            Some(c) => nz(c),
        };
        Some(LinearBinomial::new([c(1), c(0)]))
    }
    fn val(&self) -> Result<MP, String> {
        let mut p = MP::zero();
        put(&mut p, self.coefficients[0], 1)?;
        put(&mut p, self.coefficients[1], 0)?;
        Ok(p)
    }
}

impl<N: Coef> PolyT<N> for QuadraticTrinomial<N> {
    const T: &'static str = "QuadraticTrinomial";
    fn build(p: &MP, rng: &mut Rng) -> Option<Self> {
        if p.degree().map_or(false, |d| d > 2) {
            return None;
        }
        let mut c = |d: usize| match p.t.get(&d) {
            None => N::some_zero(rng),
            Some(c) => nz(c),
        };
        Some(QuadraticTrinomial::new([c(2), c(1), c(0)]))
    }
    fn val(&self) -> Result<MP, String> {
        let mut p = MP::zero();
        put(&mut p, self.coefficients[0], 2)?;
        put(&mut p, self.coefficients[1], 1)?;
        put(&mut p, self.coefficients[2], 0)?;
        Ok(p)
    }
}

/// Compares the value of a result with the model.
pub fn same<N: Coef, P: PolyT<N>>(ctx: &mut crate::run::Ctx, what: &str, got: Option<P>, want: &MP) {
    let Some(got) = got else { return };
    ctx.bump("oracle comparisons");
    match got.val() {
        Ok(v) if v == *want => {}
        Ok(v) => ctx.fail(format!(
            "{} [{}<{}>]: got {} (stored as {}), expected {}",
            what,
            P::T,
            N::NAME,
            v.show(),
            crate::run::brief(&got),
            want.show()
        )),
        Err(e) => ctx.fail(format!("{} [{}<{}>]: {}", what, P::T, N::NAME, e)),
    }
}

/// Whether every coefficient is a value of the type.
pub fn representable<N: Coef>(p: &MP) -> bool {
    p.t.values().all(|c| N::from_dy(c).is_some())
}

/// A second operand related to the first: independent, equal, opposite, cancelling in part, or zero.
pub fn partner<N: Coef>(rng: &mut Rng, a: &MP, bits: u32, scale: i64, max_len: usize) -> MP {
    match rng.below(10) {
        0 => a.clone(),
        1 if N::SIGNED => a.neg(),
        2 => MP::zero(),
        3 | 4 => {
            // Agrees with a (or -a) on some of its terms.
            let b = if N::SIGNED && rng.bool() { a.neg() } else { a.clone() };
            let mut p = MP::zero();
            for (d, c) in &b.t {
                if rng.chance(60) {
                    p.add_term(c, *d);
                }
            }
            p
        }
        5 => {
            // Cancels the leading terms, differs in the low ones.
            let b = if N::SIGNED { a.neg() } else { a.clone() };
            let cut = a.degree().map_or(0, |d| rng.usize(d + 1));
            let mut p = MP::zero();
            for (d, c) in &b.t {
                if *d >= cut {
                    p.add_term(c, *d);
                }
            }
            for d in 0..cut.min(12) {
                if rng.bool() {
                    p.add_term(&coef::<N>(rng, bits, scale), d);
                }
            }
            p
        }
        _ => {
            let n = length(rng, max_len);
            gen_dense::<N>(rng, n, bits, scale)
        }
    }
}

/// Runs the body once for each of the five types which can hold the value, with `$p` bound to it.
#[macro_export]
macro_rules! each_type {
    ($ctx:expr, $N:ty, $mp:expr, $p:ident, $body:block) => {{
        use $crate::poly::PolyT as _;
        if let Some($p) = <rustnomial::Polynomial<$N> as $crate::poly::PolyT<$N>>::build($mp, &mut $ctx.rng) $body
        if let Some($p) = <rustnomial::SparsePolynomial<$N> as $crate::poly::PolyT<$N>>::build($mp, &mut $ctx.rng) $body
        if let Some($p) = <rustnomial::Monomial<$N> as $crate::poly::PolyT<$N>>::build($mp, &mut $ctx.rng) $body
        if let Some($p) = <rustnomial::LinearBinomial<$N> as $crate::poly::PolyT<$N>>::build($mp, &mut $ctx.rng) $body
        if let Some($p) = <rustnomial::QuadraticTrinomial<$N> as $crate::poly::PolyT<$N>>::build($mp, &mut $ctx.rng) $body
    }};
}

pub fn type_name<N: Coef, P: PolyT<N>>(_: &P) -> &'static str {
    P::T
}

/// The value of a list of terms.
pub fn from_terms<N: Coef>(terms: &[(N, usize)]) -> Result<MP, String> {
    let mut p = MP::zero();
    for (c, d) in terms {
        put(&mut p, *c, *d)?;
    }
    Ok(p)
}
