//! When a polynomial type can take a term.

use crate::coef::Coef;
use crate::dy::Dy;
use crate::poly::MP;
use rustnomial::TryAddError;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
}

/// The errors which name a reason that applies; empty if the operation must succeed.
/// None: not specified (the coefficient is zero), so either is fine as long as the value is right.
pub fn reasons<N: Coef>(ty: &str, v: &MP, op: Op, c: &Dy, deg: usize, dense_fits: bool) -> Option<Vec<TryAddError>> {
    if c.is_zero() {
        return None;
    }
    let mut r = vec![];
    match ty {
        "Polynomial" | "SparsePolynomial" => {
            if op == Op::Sub && !N::SIGNED && v.get(deg).is_zero() {
                r.push(TryAddError::CanNotNegate);
            }
            if ty == "Polynomial" && !dense_fits {
                r.push(TryAddError::DegreeOutOfBounds);
            }
        }
        "Monomial" => {
            if !v.is_zero() && v.degree() != Some(deg) {
                r.push(TryAddError::TooManyTerms);
            }
        }
        "LinearBinomial" if deg > 1 => r.push(TryAddError::DegreeOutOfBounds),
        "QuadraticTrinomial" if deg > 2 => r.push(TryAddError::DegreeOutOfBounds),
        _ => {}
    }
    Some(r)
}
