//! C14: roots, discriminants and factors of low-degree polynomials are right.
use num::Complex;
use rustnomial::{LinearBinomial, Monomial, QuadraticTrinomial, Roots};
use vh::quadratic::{generate, judge, judge_linear, Seen};
use vh::rng::hash_bytes;
use vh::*;

/// The coefficient types which have what quadratics need.
trait Quad: Coef {
    fn disc(t: &QuadraticTrinomial<Self>) -> Self;
    fn roots(t: &QuadraticTrinomial<Self>) -> Roots<Self>;
    fn real(t: &QuadraticTrinomial<Self>) -> Option<(Self, LinearBinomial<Self>, LinearBinomial<Self>)>;
    fn complex(t: &QuadraticTrinomial<Self>) -> (Self, LinearBinomial<Complex<Self>>, LinearBinomial<Complex<Self>>);
}
trait Linear: Coef {
    fn root(t: &LinearBinomial<Self>) -> Roots<Self>;
}

macro_rules! quad {
    ($($t:ident)*) => {$(
        impl Quad for $t {
            fn disc(t: &QuadraticTrinomial<$t>) -> $t { t.discriminant() }
            fn roots(t: &QuadraticTrinomial<$t>) -> Roots<$t> { t.roots() }
            fn real(t: &QuadraticTrinomial<$t>) -> Option<($t, LinearBinomial<$t>, LinearBinomial<$t>)> { t.real_factors() }
            fn complex(t: &QuadraticTrinomial<$t>) -> ($t, LinearBinomial<Complex<$t>>, LinearBinomial<Complex<$t>>) { t.complex_factors() }
        }
    )*};
}
macro_rules! linear {
    ($($t:ident)*) => {$(
        impl Linear for $t {
            fn root(t: &LinearBinomial<$t>) -> Roots<$t> { t.root() }
        }
    )*};
}
quad!(i16 i32 i64 i128 isize f32 f64);
linear!(i8 i16 i32 i64 i128 isize f32 f64);

fn see<N: Quad>(ctx: &mut Ctx, p: [N; 3]) {
    let t = QuadraticTrinomial::new(p);
    let what = format!("{:?} over {}", p, N::NAME);
    let before = t.clone();
    let all = (|| {
        let disc = ctx.op("QuadraticTrinomial.discriminant", || N::disc(&t))?;
        let roots = ctx.op("QuadraticTrinomial.roots", || N::roots(&t))?;
        let real = ctx.op("QuadraticTrinomial.real_factors", || N::real(&t))?;
        let complex = if p[0].is_zero() { None } else { Some(ctx.op("QuadraticTrinomial.complex_factors", || N::complex(&t))?) };
        Some(Seen {
            what: what.clone(),
            disc,
            roots,
            real: real.map(|(k, f, g)| (k, f.coefficients, g.coefficients)),
            complex: complex.map(|(k, f, g)| (k, f.coefficients, g.coefficients)),
        })
    })();
    match all {
        Some(s) => {
            ctx.log(|| format!("{}: {:?} {:?} {:?} {:?}", s.what, s.disc, s.roots, s.real, s.complex));
            judge(ctx, p, &s)
        }
        None => ctx.fail(what),
    }
    ctx.check(t == before, || "the trinomial changed".to_string());
}

fn quadratics<N: Quad>(ctx: &mut Ctx) {
    let p = generate::<N>(&mut ctx.rng);
    let v = MP { t: p.iter().rev().cloned().enumerate().filter(|(_, c)| !c.is_zero()).collect() };
    if !p[0].is_zero() {
        ctx.distinct(v.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {}", N::NAME, v.show()));
    let z = N::some_zero(&mut ctx.rng);
    let c = [0, 1, 2].map(|i: usize| if p[i].is_zero() { z } else { nz::<N>(&p[i]) });
    see(ctx, c);
}

/// All quadratics with small coefficients.
fn grid<N: Quad>(ctx: &mut Ctx) {
    let side = 41i64;
    let i = (ctx.index / 7) as i64;
    let (a, b) = (i / side - side / 2, i % side - side / 2);
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, a, b).as_bytes()));
    ctx.sample(|| format!("{}: {}x^2 + {}x + c", N::NAME, a, b));
    for c in -20..=20 {
        let p = [a, b, c].map(|c: i64| nz::<N>(&Dy::int(i128::from(c))));
        see(ctx, p);
    }
}

fn lines<N: Linear>(ctx: &mut Ctx) {
    let pick = |ctx: &mut Ctx| loop {
        let c = if N::FLOAT {
            let e = if N::BITS == 24 { 40 } else { 400 };
            let mut c = coef::<N>(&mut ctx.rng, N::BITS, 0);
            c.e = ctx.rng.range(-e, e) - c.m.bits() as i64;
            c
        } else {
            any_coef::<N>(&mut ctx.rng).dy().unwrap()
        };
        if N::from_dy(&c).is_some() && N::from_dy(&c.neg()).is_some() {
            return c;
        }
    };
    let b = pick(ctx);
    let mut c = pick(ctx);
    if !N::FLOAT && ctx.rng.chance(60) {
        // A whole root.
        let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
        let r = coef::<N>(&mut ctx.rng, bits, 0);
        let m = b.mul(&r);
        if N::fits(&m.abs()) {
            c = m;
        }
    }
    if ctx.rng.chance(10) {
        c = Dy::zero();
    }
    let b = if ctx.rng.chance(10) { Dy::zero() } else { b };
    let (b, c): (N, N) = (nz(&b), nz(&c));
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, b, c).as_bytes()));
    ctx.sample(|| format!("{}: {}x + {}", N::NAME, b, c));
    let t = LinearBinomial::new([b, c]);
    if let Some(r) = ctx.op("LinearBinomial.root", || N::root(&t)) {
        judge_linear(ctx, &format!("{:?} over {}", t, N::NAME), b, c, &r);
    }
}

fn single<N: Coef>(ctx: &mut Ctx) {
    let c = any_coef::<N>(&mut ctx.rng);
    let d = degree(&mut ctx.rng, usize::MAX);
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, c, d).as_bytes()));
    ctx.sample(|| format!("{}: {}x^{}", N::NAME, c, d));
    let m = Monomial::new(c, d);
    let want = match (c.is_zero(), d) {
        (true, _) => Roots::InfiniteRoots,
        (false, 0) => Roots::NoRoots,
        _ => Roots::OneRealRoot(N::zero()),
    };
    if let Some(r) = ctx.op("Monomial.root", || m.root()) {
        ctx.check(r == want, || format!("{:?} over {}: root {:?}, expected {:?}", m, N::NAME, r, want));
    }
}

fn s_quadratics(ctx: &mut Ctx) {
    match ctx.index % 7 {
        0 => quadratics::<i16>(ctx),
        1 => quadratics::<i32>(ctx),
        2 => quadratics::<i64>(ctx),
        3 => quadratics::<i128>(ctx),
        4 => quadratics::<isize>(ctx),
        5 => quadratics::<f32>(ctx),
        _ => quadratics::<f64>(ctx),
    }
}
fn s_grid(ctx: &mut Ctx) {
    match ctx.index % 7 {
        0 => grid::<i16>(ctx),
        1 => grid::<i32>(ctx),
        2 => grid::<i64>(ctx),
        3 => grid::<i128>(ctx),
        4 => grid::<isize>(ctx),
        5 => grid::<f32>(ctx),
        _ => grid::<f64>(ctx),
    }
}
fn s_lines(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, lines(ctx));
}
fn s_single(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, single(ctx));
}

fn main() {
    run::main(Spec {
        id: "C14",
        rule: "Quadratics built from integer, Gaussian and dyadic roots, and random ones, have their discriminant, roots and factors compared with exact big-number arithmetic (floats: square roots to 200 bits, within a forward error bound of the textbook formula); all quadratics with coefficients from -20 to 20 are included. Non-trivial: quadratic term not zero; distinct by coefficients and type.",
        assumptions: &["b^2 + 4|ac| and twice the coefficients are in range; floats are moderate.", "The sign of a float discriminant is only relied on when it is computed exactly or is larger than its rounding error.", "Integer roots which are not whole (or Gaussian) numbers are only classified and ordered."],
        sections: vec![
            Section { name: "grid", quick: 41 * 41 * 7, thorough: 41 * 41 * 7, f: s_grid },
            Section { name: "quadratics", quick: 280_000, thorough: 8_000_000, f: s_quadratics },
            Section { name: "lines", quick: 160_000, thorough: 3_200_000, f: s_lines },
            Section { name: "single", quick: 56_000, thorough: 560_000, f: s_single },
        ],
        known: vec![],
    })
}
