//! C04: evaluation returns the value of the polynomial at the point.
use num::{BigInt, Complex};
use rustnomial::{Evaluable, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use vh::ring::{set_modulus, Zn};
use vh::rng::{hash_bytes, mix};
use vh::*;

fn show_dy(d: &Dy) -> String {
    MP::constant(d.clone()).show()
}

fn judge<N: Coef, P: PolyT<N> + Evaluable<N>>(ctx: &mut Ctx, p: &P, x: N, want: &Dy, tol: Option<&Dy>) {
    let name = format!("{}.eval", P::T);
    let Some(got) = ctx.op(&name, || p.eval(x)) else { return };
    ctx.bump("oracle comparisons");
    let ok = match (got.dy(), tol) {
        (None, _) => false,
        (Some(g), None) => g == *want,
        (Some(g), Some(t)) => g.sub(want).abs() <= *t,
    };
    if !ok {
        ctx.fail(format!(
            "{}<{}> {:.300} at {}: got {}, expected {} (tolerance {})",
            P::T,
            N::NAME,
            format!("{:?}", p),
            x,
            got,
            show_dy(want),
            tol.map_or("none".to_string(), |t| format!("{:e}", t.approx()))
        ));
    }
}

/// Exact evaluation, for integers and for floats on an integer grid.
fn exact<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Evaluable<N>,
    SparsePolynomial<N>: Evaluable<N>,
    Monomial<N>: Evaluable<N>,
    LinearBinomial<N>: Evaluable<N>,
    QuadraticTrinomial<N>: Evaluable<N>,
{
    let mut bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let mut xbits = match ctx.rng.below(4) {
        0 => 0,
        1 => 1,
        _ => 1 + ctx.rng.below(u64::from(N::BITS)) as u32,
    };
    let mut len = match ctx.rng.below(4) {
        0 => 1 + ctx.rng.usize(3),
        1 => length(&mut ctx.rng, 600),
        _ => 1 + ctx.rng.usize(9),
    };
    let single = ctx.rng.chance(20);
    let (p, x) = loop {
        let mut x = coef::<N>(&mut ctx.rng, xbits, 0);
        if xbits > 0 && x.is_zero() && ctx.rng.chance(70) {
            x = Dy::one();
        }
        let mut p = gen_dense::<N>(&mut ctx.rng, len, bits, 0);
        if single {
            let c = p.t.values().next_back().cloned().unwrap_or_else(Dy::one);
            p = MP::term(c, len.saturating_sub(1));
        }
        let b = p.abs().eval(&x.abs());
        if N::fits(&b) && p.abs().fits::<N>() && N::fits(&x.abs()) {
            break (p, x);
        }
        match ctx.rng.below(3) {
            0 if bits > 1 => bits -= 1 + bits / 4,
            1 if xbits > 1 => xbits -= 1 + xbits / 4,
            _ if len > 1 => len -= 1 + len / 4,
            _ => {
                bits = bits.max(2) / 2;
                xbits = xbits.max(2) / 2;
            }
        }
        bits = bits.max(1);
    };
    let want = p.eval(&x);
    if p.t.len() > 1 && x.abs() > Dy::one() {
        ctx.distinct(p.hash() ^ MP::constant(x.clone()).hash().rotate_left(7) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.max("degree at a point other than 0, 1, -1", if x.abs() > Dy::one() { p.degree().unwrap_or(0) as u64 } else { 0 });
    ctx.sample(|| format!("{}: {} at {}", N::NAME, p.show(), show_dy(&x)));
    let xn: N = nz(&x);
    each_type!(ctx, N, &p, q, { judge(ctx, &q, xn, &want, None); });
    if x.is_zero() {
        let z = N::some_zero(&mut ctx.rng);
        each_type!(ctx, N, &p, q, { judge(ctx, &q, z, &p.get(0), None); });
    }
}

/// Any floats: within the rounding error of the sum of absolute values.
fn rounded<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Evaluable<N>,
    SparsePolynomial<N>: Evaluable<N>,
    Monomial<N>: Evaluable<N>,
    LinearBinomial<N>: Evaluable<N>,
    QuadraticTrinomial<N>: Evaluable<N>,
{
    let room = if N::BITS == 24 { 55.0 } else { 450.0 };
    let xe = match ctx.rng.below(4) {
        0 => 0,
        1 => ctx.rng.range(-30, 30),
        _ => ctx.rng.range(-4, 4),
    };
    let xbits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let mut x = coef::<N>(&mut ctx.rng, xbits, 0);
    if x.is_zero() {
        x = Dy::int(3);
    }
    // Around 2^xe.
    x.e = xe - x.m.bits() as i64 + 1;
    if ctx.rng.chance(20) {
        // Next to one.
        let k = 1 + ctx.rng.range(0, i64::from(N::BITS) - 2);
        let one = Dy::one();
        let d = Dy::pow2(-k);
        x = if ctx.rng.bool() { one.add(&d) } else { one.sub(&d) };
        if ctx.rng.bool() {
            x = x.neg();
        }
    }
    let l2 = x.abs().approx().log2().abs();
    let maxdeg = if l2 < 1e-9 { 800 } else { ((room / l2) as usize).min(800) };
    let n = match ctx.rng.below(4) {
        0 => 1 + ctx.rng.usize(3),
        1 => length(&mut ctx.rng, maxdeg + 1),
        _ => 1 + ctx.rng.usize(10),
    }
    .min(maxdeg + 1);
    let mut p = MP::zero();
    let style = ctx.rng.below(4);
    let here = gappy(&mut ctx.rng, n, false, |_| true);
    for d in 0..n {
        if style == 1 && ctx.rng.chance(60) || style == 2 && !here[d] {
            continue;
        }
        let e = ctx.rng.range(-10, 10);
        let b = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
        let mut c = coef::<N>(&mut ctx.rng, b, 0);
        c.e = e - c.m.bits() as i64;
        p.add_term(&c, d);
    }
    if style == 3 && n >= 2 {
        // Nearly a root at x: make the value cancel.
        let v = p.eval(&x).neg();
        let a = v.approx();
        if let Some(c) = Dy::from_f64(if N::BITS == 24 { f64::from(a as f32) } else { a }) {
            if a.is_finite() && a.abs() < 1e20 && a.abs() > 1e-20 && !p.t.contains_key(&0) {
                p.add_term(&c, 0);
            }
        }
    }
    if !representable::<N>(&p) || N::from_dy(&x).is_none() {
        return;
    }
    let want = p.eval(&x);
    let s = p.abs().eval(&x.abs());
    let k = 3 * p.degree().unwrap_or(0) + 2 * p.t.len() + 60;
    let tol = s.mul(&Dy { m: BigInt::from(k), e: -i64::from(N::BITS) });
    if p.t.len() > 1 {
        ctx.distinct(p.hash() ^ MP::constant(x.clone()).hash().rotate_left(7) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {} at {}", N::NAME, p.show(), show_dy(&x)));
    let xn: N = nz(&x);
    each_type!(ctx, N, &p, q, { judge(ctx, &q, xn, &want, Some(&tol)); });
}

fn huge_degree(rng: &mut Rng) -> usize {
    match rng.below(7) {
        0 => (1usize << 31) - 3 + rng.usize(6),
        1 => (1usize << 32) - 3 + rng.usize(6),
        2 => (1usize << rng.usize(64)).wrapping_add(rng.usize(3)),
        3 => usize::MAX - rng.usize(4),
        4 => (1usize << 63) - 2 + rng.usize(4),
        5 => rng.u64() as usize,
        _ => degree(rng, usize::MAX),
    }
}

/// Huge degrees at points whose powers stay representable.
fn huge<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: Evaluable<N>,
    Monomial<N>: Evaluable<N>,
{
    let n = 1 + ctx.rng.usize(6);
    let mut p = MP::zero();
    for _ in 0..n {
        let b = 1 + ctx.rng.below(u64::from(N::BITS - 4)) as u32;
        let c = coef::<N>(&mut ctx.rng, b, 0);
        let d = huge_degree(&mut ctx.rng);
        if !p.t.contains_key(&d) {
            p.add_term(&c, d);
        }
    }
    if ctx.rng.bool() && !p.t.contains_key(&0) {
        p.add_term(&coef::<N>(&mut ctx.rng, 3, 0), 0);
    }
    let mut sum = Dy::zero();
    for c in p.t.values() {
        sum = sum.add(&c.abs());
    }
    if !N::fits(&sum) || !representable::<N>(&p) {
        return;
    }
    ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {} at 0, 1, -1", N::NAME, p.show()));
    ctx.max("degree", p.degree().unwrap_or(0) as u64);
    let at1 = p.t.values().fold(Dy::zero(), |a, c| a.add(c));
    let atm1 = p.t.iter().fold(Dy::zero(), |a, (d, c)| if d % 2 == 1 { a.sub(c) } else { a.add(c) });
    let mut points = vec![(N::zero(), p.get(0)), (N::one(), at1)];
    if N::SIGNED {
        points.push((N::zero() - N::one(), atm1));
    }
    let s = sparse::<N>(&p, &mut ctx.rng);
    for (x, w) in &points {
        judge(ctx, &s, *x, w, None);
    }
    if p.t.len() == 1 {
        let m = <Monomial<N> as PolyT<N>>::build(&p, &mut ctx.rng).unwrap();
        for (x, w) in &points {
            judge(ctx, &m, *x, w, None);
        }
    }
    // A zero term contributes nothing, whatever its degree and the point.
    let z = Monomial::new(N::zero(), huge_degree(&mut ctx.rng));
    let x = any_coef::<N>(&mut ctx.rng);
    judge(ctx, &z, x, &Dy::zero(), None);
}

/// Degrees beyond 32 bits at points next to 1, where powers are still finite.
fn near_one(ctx: &mut Ctx) {
    let d = match ctx.rng.below(4) {
        0 => (1usize << 31) - 2 + ctx.rng.usize(4),
        1 => (1usize << 32) - 2 + ctx.rng.usize(4),
        2 => (1usize << 31) + ctx.rng.usize(1 << 31),
        _ => (1usize << 32) + ctx.rng.usize(1 << 34),
    };
    let k = ctx.rng.range(8, 1 << 21) as f64;
    let delta = k * 2f64.powi(-52) * if ctx.rng.bool() { 1.0 } else { -0.5 };
    let neg = ctx.rng.bool();
    let x = if neg { -(1.0 + delta) } else { 1.0 + delta };
    let l = d as f64 * delta.ln_1p();
    if l.abs() > 600.0 || l.abs() < 1e-3 {
        return;
    }
    let mut w = l.exp();
    if neg && d % 2 == 1 {
        w = -w;
    }
    let c = ctx.rng.range(1, 9) as f64;
    let tol = w.abs() * c * (d as f64 * 4.0 * 2f64.powi(-53) + 1e-9);
    ctx.distinct(mix(d as u64) ^ x.to_bits());
    ctx.sample(|| format!("{}x^{} at {:e} away from 1 (negated: {})", c, d, delta, neg));
    let m = Monomial::new(c, d);
    let s = SparsePolynomial { terms: [(d, c), (0, 1.0), (d + 1, 0.0)].into_iter().collect() };
    for (name, got, want) in [
        ("Monomial.eval", ctx.op("Monomial.eval", || m.eval(x)), w * c),
        ("SparsePolynomial.eval", ctx.op("SparsePolynomial.eval", || s.eval(x)), w * c + 1.0),
    ] {
        if let Some(g) = got {
            ctx.check((g - want).abs() <= tol + 1e-15, || format!("{} of {}x^{} at {:?}: got {}, expected {}", name, c, d, x, g, want));
        }
    }
}

/// Long dense polynomials.
fn long(ctx: &mut Ctx) {
    let n = ctx.rng.usize(5000);
    let terms: Vec<i64> = (0..n).map(|_| ctx.rng.range(-1000, 1000)).collect();
    let p = Polynomial { terms: terms.clone() };
    let h = ctx.rng.u64();
    ctx.distinct(h);
    for x in [-1i64, 0, 1] {
        let mut w = 0i64;
        let mut pw = 1i64;
        for c in terms.iter().rev() {
            w += c * pw;
            pw *= x;
        }
        if let Some(g) = ctx.op("Polynomial.eval", || p.eval(x)) {
            ctx.check(g == w, || format!("{} coefficients at {}: got {}, expected {}", n, x, g, w));
        }
    }
    ctx.sample(|| format!("{} coefficients at -1, 0, 1", n));
}

/// Long polynomials with long runs of zeros, at points of Z/n and at units of the Gaussian integers.
fn gaps(ctx: &mut Ctx) {
    let max = if ctx.rng.chance(5) { 70_000 } else { 3000 };
    let n = match ctx.rng.below(3) {
        0 => ctx.rng.usize(600),
        1 => ((1usize << (6 + ctx.rng.usize(11))) + ctx.rng.usize(8)).saturating_sub(4).min(max),
        _ => ctx.rng.usize(max),
    };
    ctx.max("coefficients", n as u64);
    let full = ctx.rng.chance(30);
    if ctx.rng.chance(70) {
        let m = *ctx.rng.pick(&[7u64, 97, 65537, 1_000_003, 1_000_000_007]);
        set_modulus(m);
        let c: Vec<Zn> = if full {
            (0..n).map(|_| Zn(ctx.rng.below(m))).collect()
        } else {
            gappy(&mut ctx.rng, n, Zn(0), |r| Zn(1 + r.below(m - 1)))
        };
        let x = Zn(2 + ctx.rng.below(m - 2));
        let w = c.iter().fold(0u128, |a, k| (a * u128::from(x.0) + u128::from(k.0)) % u128::from(m)) as u64;
        ctx.distinct(c.iter().fold(mix(m ^ x.0), |h, k| mix(h ^ k.0)));
        ctx.sample(|| format!("Z/{}: {} coefficients, {} not zero, at {}", m, n, c.iter().filter(|k| k.0 != 0).count(), x.0));
        let p = Polynomial { terms: c };
        if let Some(g) = ctx.op("Polynomial.eval", || p.eval(x)) {
            ctx.check(g.0 == w, || format!("Z/{}: {} coefficients, those not zero (index, value) {:?}, at {}: got {}, expected {}", m, n,
                p.terms.iter().enumerate().filter(|(_, k)| k.0 != 0).take(30).map(|(i, k)| (i, k.0)).collect::<Vec<_>>(), x.0, g.0, w));
        }
    } else {
        let r = |rng: &mut Rng| Complex::new(rng.range(-9, 9), rng.range(-9, 9));
        let zero = Complex::new(0i64, 0);
        let c = if full { (0..n).map(|_| r(&mut ctx.rng)).collect() } else { gappy(&mut ctx.rng, n, zero, r) };
        let x = *ctx.rng.pick(&[Complex::new(0i64, 1), Complex::new(0, -1), Complex::new(-1, 0)]);
        let w = c.iter().fold(zero, |a, k| a * x + k);
        ctx.distinct(c.iter().fold(mix(n as u64), |h, k| mix(h ^ (k.re * 64 + k.im) as u64)));
        ctx.sample(|| format!("Gaussian integers: {} coefficients at {}", n, x));
        let p = Polynomial { terms: c };
        if let Some(g) = ctx.op("Polynomial.eval", || p.eval(x)) {
            ctx.check(g == w, || format!("Gaussian integers, {} coefficients at {}: got {}, expected {}", n, x, g, w));
        }
    }
}

/// User-defined rings.
fn rings(ctx: &mut Ctx) {
    let n = ctx.rng.usize(12);
    if ctx.rng.bool() {
        let m = *ctx.rng.pick(&[2u64, 3, 4, 6, 7, 12, 97, 65537, 1_000_003]);
        set_modulus(m);
        let c: Vec<Zn> = (0..n).map(|_| Zn(ctx.rng.below(m))).collect();
        let x = Zn(ctx.rng.below(m));
        let w = c.iter().fold(0u128, |a, k| (a * u128::from(x.0) + u128::from(k.0)) % u128::from(m)) as u64;
        if n > 1 && x.0 > 1 {
            ctx.distinct(hash_bytes(format!("{:?}{:?}{}", c, x, m).as_bytes()));
        }
        ctx.sample(|| format!("Z/{}: {:?} at {:?}", m, c, x));
        let p = Polynomial { terms: c.clone() };
        if let Some(g) = ctx.op("Polynomial.eval", || p.eval(x)) {
            ctx.check(g.0 == w, || format!("Z/{}: {:?} at {:?}: got {:?}, expected {}", m, c, x, g, w));
        }
        if n == 2 {
            let b = LinearBinomial::new([c[0], c[1]]);
            if let Some(g) = ctx.op("LinearBinomial.eval", || b.eval(x)) {
                ctx.check(g.0 == w, || format!("Z/{}: {:?} at {:?}: got {:?}, expected {}", m, b, x, g, w));
            }
        }
        if n == 3 {
            let b = QuadraticTrinomial::new([c[0], c[1], c[2]]);
            if let Some(g) = ctx.op("QuadraticTrinomial.eval", || b.eval(x)) {
                ctx.check(g.0 == w, || format!("Z/{}: {:?} at {:?}: got {:?}, expected {}", m, b, x, g, w));
            }
        }
    } else {
        let r = |rng: &mut Rng| Complex::new(rng.range(-9, 9), rng.range(-9, 9));
        let c: Vec<Complex<i64>> = (0..n).map(|_| r(&mut ctx.rng)).collect();
        let x = Complex::new(ctx.rng.range(-3, 3), ctx.rng.range(-3, 3));
        let mut w = Complex::new(0i64, 0);
        let mut pw = Complex::new(1i64, 0);
        for k in c.iter().rev() {
            w += k * pw;
            pw *= x;
        }
        if n > 1 {
            ctx.distinct(hash_bytes(format!("{:?}{:?}", c, x).as_bytes()));
        }
        let p = Polynomial { terms: c.clone() };
        if let Some(g) = ctx.op("Polynomial.eval", || p.eval(x)) {
            ctx.check(g == w, || format!("{:?} at {}: got {}, expected {}", c, x, g, w));
        }
        if n == 2 {
            let b = LinearBinomial::new([c[0], c[1]]);
            if let Some(g) = ctx.op("LinearBinomial.eval", || b.eval(x)) {
                ctx.check(g == w, || format!("{:?} at {}: got {}, expected {}", c, x, g, w));
            }
        }
        if n == 3 {
            let b = QuadraticTrinomial::new([c[0], c[1], c[2]]);
            if let Some(g) = ctx.op("QuadraticTrinomial.eval", || b.eval(x)) {
                ctx.check(g == w, || format!("{:?} at {}: got {}, expected {}", c, x, g, w));
            }
        }
    }
}

fn s_exact(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, exact(ctx));
}
fn s_rounded(ctx: &mut Ctx) {
    if ctx.index % 3 == 0 {
        rounded::<f32>(ctx)
    } else {
        rounded::<f64>(ctx)
    }
}
fn s_huge(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, huge(ctx));
}

fn main() {
    run::main(Spec {
        id: "C04",
        rule: "Polynomials and points are drawn per coefficient type and held by every type which can hold them, with stored zeros added at random; the value returned is compared with exact arithmetic: equal where the sum of the terms' magnitudes is exactly representable, within a rounding bound proportional to that sum otherwise. Non-trivial: at least two terms, at a point other than 0, 1, -1 (huge: a degree drawn up to the largest integer); distinct by value, point and type.",
        assumptions: &["Floats are explored where no power overflows or underflows.", "NaN and infinities are not explored."],
        sections: vec![
            Section { name: "exact", quick: 280_000, thorough: 2_800_000, f: s_exact },
            Section { name: "rounded", quick: 90_000, thorough: 900_000, f: s_rounded },
            Section { name: "huge", quick: 84_000, thorough: 1_400_000, f: s_huge },
            Section { name: "near_one", quick: 12_000, thorough: 100_000, f: near_one },
            Section { name: "long", quick: 500, thorough: 20_000, f: long },
            Section { name: "gaps", quick: 12_000, thorough: 200_000, f: gaps },
            Section { name: "rings", quick: 120_000, thorough: 1_000_000, f: rings },
        ],
        known: vec![],
    })
}
