//! Long polynomials over i64, as ascending coefficient lists: a model cheap enough for sizes which the
//! exact model cannot take.
use crate::Rng;
use rustnomial::{Polynomial, SparsePolynomial};

/// A size: small, next to a power of two, or anything below 2^top.
pub fn size(rng: &mut Rng, top: usize) -> usize {
    match rng.below(3) {
        0 => rng.usize(40),
        1 => (1usize << rng.usize(top)) + rng.usize(5).min(4),
        _ => {
            let k = 1 + rng.usize(top);
            rng.usize(1 << k)
        }
    }
}

/// Coefficients of which some are zero, with a non-zero one on top.
pub fn list(rng: &mut Rng, n: usize, most: i64) -> Vec<i64> {
    let zeros = *rng.pick(&[0u64, 0, 20, 90]);
    let mut v: Vec<i64> = (0..n).map(|_| if rng.chance(zeros) { 0 } else { rng.range(-most, most) }).collect();
    if let Some(c) = v.last_mut() {
        *c = if rng.bool() { 1 } else { most };
    }
    v
}

pub fn mul(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut v = vec![0; (a.len() + b.len()).max(1) - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            v[i + j] += x * y;
        }
    }
    v
}

pub fn dense(v: &[i64], zeros: usize) -> Polynomial<i64> {
    Polynomial { terms: std::iter::repeat(0).take(zeros).chain(v.iter().rev().copied()).collect() }
}

pub fn sparse(v: &[i64], stored_zeros: bool) -> SparsePolynomial<i64> {
    SparsePolynomial { terms: v.iter().enumerate().filter(|(_, c)| stored_zeros || **c != 0).map(|(d, c)| (d, *c)).collect() }
}

/// The coefficients, ascending.
pub trait Coefficients {
    fn ascending(&self, least: usize) -> Vec<i64>;
    fn kind() -> &'static str;
}
impl Coefficients for Polynomial<i64> {
    fn ascending(&self, _: usize) -> Vec<i64> {
        self.terms.iter().rev().copied().collect()
    }
    fn kind() -> &'static str {
        "Polynomial"
    }
}
impl Coefficients for SparsePolynomial<i64> {
    fn ascending(&self, least: usize) -> Vec<i64> {
        let mut v = vec![0; least];
        for (d, c) in self.terms.iter().filter(|(_, c)| **c != 0) {
            if *d >= v.len() {
                v.resize((*d + 1).min(1 << 22), 0);
            }
            let top = v.len() - 1;
            v[(*d).min(top)] = *c;
        }
        v
    }
    fn kind() -> &'static str {
        "SparsePolynomial"
    }
}

/// The first degree at which the polynomial differs from the list, with both coefficients.
pub fn differs<P: Coefficients>(p: &P, want: &[i64]) -> Option<(usize, i64, i64)> {
    let v = p.ascending(want.len());
    let at = |v: &[i64], d: usize| v.get(d).copied().unwrap_or(0);
    (0..v.len().max(want.len())).map(|d| (d, at(&v, d), at(want, d))).find(|(_, a, b)| a != b)
}

/// Judges a result of a monitored operation.
pub fn judge<P: Coefficients>(ctx: &mut crate::Ctx, what: impl Fn() -> String, got: Option<P>, want: &[i64]) {
    let Some(got) = got else { return };
    let bad = differs(&got, want);
    ctx.check(bad.is_none(), || {
        let (d, a, b) = bad.unwrap();
        format!("{} {}: {} at degree {}, expected {}", P::kind(), what(), a, d, b)
    });
}
