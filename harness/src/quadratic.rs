//! What the roots, discriminant and factors of quadratic and linear polynomials have to be.

use crate::coef::{coef, Coef};
use crate::dy::Dy;
use crate::poly::MP;
use crate::rng::Rng;
use crate::run::Ctx;
use num::{BigInt, Complex, Integer, Zero};
use rustnomial::Roots;

/// Everything seen of one quadratic polynomial.
pub struct Seen<N> {
    pub what: String,
    pub disc: N,
    pub roots: Roots<N>,
    /// The leading factor and the coefficients of the linear factors.
    pub real: Option<(N, [N; 2], [N; 2])>,
    /// None if it was not asked for.
    pub complex: Option<(N, [Complex<N>; 2], [Complex<N>; 2])>,
}

/// a / b with about 200 significant bits.
pub fn div(a: &Dy, b: &Dy) -> Dy {
    let sh = 200 + b.m.bits() as i64 - a.m.bits() as i64;
    let sh = sh.max(0);
    Dy { m: (&a.m << (sh as usize)) / &b.m, e: a.e - b.e - sh }
}

/// The square root of a non-negative number, with about 200 significant bits (exact if it is a perfect square).
pub fn sqrt(d: &Dy) -> Dy {
    if d.is_zero() {
        return Dy::zero();
    }
    let d = d.normal();
    let mut sh = (420 - d.m.bits() as i64).max(0);
    if (d.e - sh) % 2 != 0 {
        sh += 1;
    }
    Dy { m: (&d.m << (sh as usize)).sqrt(), e: (d.e - sh) / 2 }
}

/// a / b if it is a whole number.
fn whole(a: &BigInt, b: &BigInt) -> Option<BigInt> {
    let (q, r) = a.div_rem(b);
    if r.is_zero() {
        Some(q)
    } else {
        None
    }
}

fn int(d: &Dy) -> BigInt {
    let d = d.normal();
    assert!(d.e >= 0, "harness: not an integer");
    d.m << (d.e as usize)
}

fn show<N: std::fmt::Debug>(s: &Seen<N>) -> String {
    format!("{}: discriminant {:?}, roots {:?}, factors {:?}, {:?}", s.what, s.disc, s.roots, s.real, s.complex)
}

/// How far a float may be from the true value.
fn eps<N: Coef>(k: i64) -> Dy {
    Dy { m: BigInt::from(k), e: -i64::from(N::BITS) }
}

fn near<N: Coef>(got: N, want: &Dy, tol: &Dy) -> bool {
    got.dy().map_or(false, |g| g.sub(want).abs() <= *tol)
}

/// The root of b x + c.
pub fn judge_linear<N: Coef>(ctx: &mut Ctx, what: &str, b: N, c: N, roots: &Roots<N>) {
    let (db, dc) = (b.dy().unwrap(), c.dy().unwrap());
    let ok = match (db.is_zero(), dc.is_zero()) {
        (true, true) => *roots == Roots::InfiniteRoots,
        (true, false) => *roots == Roots::NoRoots,
        (false, _) => match roots {
            Roots::OneRealRoot(r) if N::FLOAT => {
                let t = div(&dc.neg(), &db);
                near(*r, &t, &t.abs().mul(&eps::<N>(2)))
            }
            Roots::OneRealRoot(r) => match whole(&int(&dc.neg()), &int(&db)) {
                Some(t) => {
                    ctx.bump("exact linear roots");
                    r.dy() == Some(Dy::big(t))
                }
                None => true,
            },
            _ => false,
        },
    };
    ctx.check(ok, || format!("{}: roots {:?}", what, roots));
}

pub fn judge<N: Coef>(ctx: &mut Ctx, p: [N; 3], s: &Seen<N>) {
    let [a, b, c] = p.map(|c| c.dy().unwrap());
    let b2 = b.mul(&b);
    let ac4 = a.mul(&c).mul(&Dy::int(4));
    let d = b2.sub(&ac4);
    let size = b2.abs().add(&ac4.abs());
    // The discriminant.
    let ok = if N::FLOAT { near(s.disc, &d, &size.mul(&eps::<N>(4))) } else { s.disc.dy() == Some(d.clone()) };
    ctx.check(ok, || format!("discriminant should be {}: {}", MP::constant(d.clone()).show(), show(s)));
    if a.is_zero() {
        judge_linear(ctx, &s.what, p[1], p[2], &s.roots);
        ctx.check(s.real.is_none(), || format!("real factors without a quadratic term: {}", show(s)));
        return;
    }
    // Whether the sign of the discriminant can be relied on.
    let exact = !N::FLOAT || (N::fits(&b2) && N::fits(&ac4.abs()) && N::fits(&size));
    if !exact && d.abs() <= size.mul(&eps::<N>(16)) {
        ctx.bump("skipped: the sign of the discriminant is not determined");
        return;
    }
    let two_a = a.mul(&Dy::int(2));
    let root_d = sqrt(&d.abs());
    // The naive formula's error, generously.
    let tol = if N::FLOAT {
        let mut t = b.abs().add(&root_d);
        if !root_d.is_zero() && !exact {
            t = t.add(&div(&size, &root_d));
        }
        div(&t, &two_a.abs()).mul(&eps::<N>(8))
    } else {
        Dy::zero()
    };
    if d.is_neg() {
        ctx.bump("complex pairs");
        ctx.check(s.real.is_none(), || format!("real factors, but no real roots: {}", show(s)));
        let Roots::TwoComplexRoots(x, y) = &s.roots else {
            ctx.fail(format!("two complex roots expected: {}", show(s)));
            return;
        };
        let (re, im) = if N::FLOAT {
            (div(&b.neg(), &two_a), div(&root_d, &two_a.abs()))
        } else {
            let isq = int(&d.abs()).sqrt();
            let gauss = &isq * &isq == int(&d.abs());
            match (whole(&int(&b.neg()), &int(&two_a)), whole(&isq, &int(&two_a.abs()))) {
                (Some(re), Some(im)) if gauss => (Dy::big(re), Dy::big(im)),
                _ => {
                    ctx.bump("not Gaussian integers: only classified");
                    return;
                }
            }
        };
        let fits = |u: &Complex<N>, v: &Complex<N>| near(u.re, &re, &tol) && near(v.re, &re, &tol) && near(u.im, &im, &tol) && near(v.im, &im.neg(), &tol);
        ctx.check(fits(x, y) || fits(y, x), || format!("roots should be {} +- {} i: {}", re.approx(), im.approx(), show(s)));
        if let Some((k, f, g)) = &s.complex {
            factor(ctx, s, &a, *k, [f, g], &[(re.clone(), im.clone()), (re, im.neg())], &tol);
        }
        return;
    }
    ctx.bump("real pairs");
    let Roots::TwoRealRoots(x, y) = &s.roots else {
        ctx.fail(format!("two real roots expected: {}", show(s)));
        return;
    };
    ctx.check(*x >= *y, || format!("larger root first: {}", show(s)));
    ctx.check(s.real.is_some(), || format!("no real factors, but real roots: {}", show(s)));
    let (t, u) = if N::FLOAT {
        let (t, u) = (div(&b.neg().add(&root_d), &two_a), div(&b.neg().sub(&root_d), &two_a));
        if t >= u {
            (t, u)
        } else {
            (u, t)
        }
    } else {
        let isq = int(&d).sqrt();
        let square = &isq * &isq == int(&d);
        match (whole(&(int(&b.neg()) + &isq), &int(&two_a)), whole(&(int(&b.neg()) - &isq), &int(&two_a))) {
            (Some(t), Some(u)) if square => {
                ctx.bump("exact pairs of integer roots");
                (Dy::big(t.clone().max(u.clone())), Dy::big(t.min(u)))
            }
            _ => {
                ctx.bump("not integers: only classified");
                return;
            }
        }
    };
    ctx.check(near(*x, &t, &tol) && near(*y, &u, &tol), || format!("roots should be {} and {}: {}", t.approx(), u.approx(), show(s)));
    if let Some((k, f, g)) = &s.real {
        let complex = |f: &[N; 2]| [Complex::new(f[0], N::zero()), Complex::new(f[1], N::zero())];
        factor(ctx, s, &a, *k, [&complex(f), &complex(g)], &[(t.clone(), Dy::zero()), (u.clone(), Dy::zero())], &tol);
    }
    if let Some((k, f, g)) = &s.complex {
        factor(ctx, s, &a, *k, [f, g], &[(t, Dy::zero()), (u, Dy::zero())], &tol);
    }
}

/// The factors multiply back to the polynomial: k = a, and each is x - root (in either order).
fn factor<N: Coef>(ctx: &mut Ctx, s: &Seen<N>, a: &Dy, k: N, f: [&[Complex<N>; 2]; 2], roots: &[(Dy, Dy); 2], tol: &Dy) {
    ctx.bump("factorisations");
    let is = |f: &[Complex<N>; 2], r: &(Dy, Dy)| {
        f[0].re.dy() == Some(Dy::one()) && f[0].im.is_zero() && near(f[1].re, &r.0.neg(), tol) && near(f[1].im, &r.1.neg(), tol)
    };
    let ok = k.dy().as_ref() == Some(a) && ((is(f[0], &roots[0]) && is(f[1], &roots[1])) || (is(f[0], &roots[1]) && is(f[1], &roots[0])));
    if ok {
        ctx.check(true, String::new);
        return;
    }
    // Otherwise the factors might be distributed differently: multiply them.
    let dy = |c: &Complex<N>| Some((c.re.dy()?, c.im.dy()?));
    let mul = |x: &(Dy, Dy), y: &(Dy, Dy)| (x.0.mul(&y.0).sub(&x.1.mul(&y.1)), x.0.mul(&y.1).add(&x.1.mul(&y.0)));
    let product = || -> Option<[(Dy, Dy); 3]> {
        let k = (k.dy()?, Dy::zero());
        let [p, q] = [[dy(&f[0][0])?, dy(&f[0][1])?], [dy(&f[1][0])?, dy(&f[1][1])?]];
        let mid = {
            let (u, v) = (mul(&p[0], &q[1]), mul(&p[1], &q[0]));
            (u.0.add(&v.0), u.1.add(&v.1))
        };
        Some([mul(&k, &mul(&p[0], &q[0])), mul(&k, &mid), mul(&k, &mul(&p[1], &q[1]))])
    };
    // Coefficients of a (x - r)(x - s).
    let want = {
        let sum = (roots[0].0.add(&roots[1].0), roots[0].1.add(&roots[1].1));
        let prod = mul(&roots[0], &roots[1]);
        [(a.clone(), Dy::zero()), (a.mul(&sum.0).neg(), a.mul(&sum.1).neg()), (a.mul(&prod.0), a.mul(&prod.1))]
    };
    let norm = |x: &(Dy, Dy)| x.0.abs().add(&x.1.abs());
    let big = norm(&roots[0]).add(&norm(&roots[1])).add(&Dy::one());
    let slack = [a.abs().mul(&eps::<N>(8)), a.abs().mul(&tol.mul(&Dy::int(4)).add(&big.mul(&eps::<N>(8)))), a.abs().mul(&big).mul(&tol.mul(&Dy::int(4)).add(&big.mul(&eps::<N>(8))))];
    let ok = product().map_or(false, |p| {
        (0..3).all(|i| {
            let t = if N::FLOAT { slack[i].clone() } else { Dy::zero() };
            p[i].0.sub(&want[i].0).abs() <= t && p[i].1.sub(&want[i].1).abs() <= t
        })
    });
    ctx.check(ok, || format!("factors do not multiply back: {}", show(s)));
}

/// Coefficients for which b^2, 4ac and their sum are in range.
pub fn generate<N: Coef>(rng: &mut Rng) -> [Dy; 3] {
    let in_range = |p: &[Dy; 3]| {
        let [a, b, c] = p;
        let size = b.mul(b).add(&a.mul(c).mul(&Dy::int(4)).abs()).add(&a.abs().mul(&Dy::int(4))).add(&c.abs().mul(&Dy::int(4)));
        let all = p.iter().all(|c| N::from_dy(c).is_some());
        if N::FLOAT {
            all
        } else {
            all && N::fits(&size.add(&b.abs().mul(&Dy::int(2)))) && p.iter().all(|c| N::fits(&c.abs()))
        }
    };
    let mut bits = 1 + rng.below(u64::from(N::BITS / 2)) as u32;
    let style = rng.below(10);
    loop {
        let s = if N::FLOAT { rng.range(-8, 8) } else { 0 };
        let v = |rng: &mut Rng, b: u32| coef::<N>(rng, b, 0);
        let small = |rng: &mut Rng, max: u64| {
            let m = 1 + rng.below(max) as i128;
            Dy::int(if N::SIGNED && rng.bool() { -m } else { m })
        };
        let p = match style {
            // Real roots r and t.
            0..=3 => {
                let top = if rng.bool() { 1 } else { 50 };
                let a = small(rng, top);
                let r = v(rng, bits);
                let t = match rng.below(5) {
                    0 => r.clone(),
                    1 => r.neg(),
                    2 => r.add(&Dy::one()),
                    _ => v(rng, bits),
                };
                [a.clone(), a.mul(&r.add(&t)).neg(), a.mul(&r).mul(&t)]
            }
            // A pair r +- i t.
            4 | 5 => {
                let top = if rng.bool() { 1 } else { 20 };
                let a = small(rng, top);
                let (r, t) = (v(rng, bits), v(rng, bits));
                [a.clone(), a.mul(&r).mul(&Dy::int(-2)), a.mul(&r.mul(&r).add(&t.mul(&t)))]
            }
            6 => [Dy::zero(), v(rng, bits), v(rng, bits)],
            7 => {
                // Sparse ones.
                let mut p = [v(rng, bits), v(rng, bits), v(rng, bits)];
                let k = rng.usize(3);
                p[k] = Dy::zero();
                if rng.chance(20) {
                    p[(k + 1) % 3] = Dy::zero();
                }
                p
            }
            _ => {
                if N::FLOAT && rng.bool() {
                    // Any floats of moderate size.
                    let e = if N::BITS == 24 { 12 } else { 60 };
                    let mut f = || {
                        let mut c = coef::<N>(rng, N::BITS, 0);
                        c.e = rng.range(-e, e) - c.m.bits() as i64;
                        c
                    };
                    [f(), f(), f()]
                } else {
                    [v(rng, bits), v(rng, bits), v(rng, bits)]
                }
            }
        };
        let p = p.map(|c| if N::FLOAT { Dy { m: c.m, e: c.e + s } } else { c });
        if in_range(&p) {
            return p;
        }
        bits = (bits - bits / 8).saturating_sub(1).max(1);
        if bits == 1 && rng.chance(10) && !in_range(&p) {
            return [Dy::one(), Dy::zero(), if rng.bool() { Dy::zero() } else { Dy::int(-1) }];
        }
    }
}
