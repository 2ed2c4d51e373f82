//! C15: root finding for float polynomials.
use num::Complex;
use rustnomial::Roots;
use vh::quadratic::{generate, judge_linear};
use vh::rng::hash_bytes;
use vh::*;

type C = Complex<f64>;

/// The roots of the polynomial, as dense and as sparse polynomial, with and without stored zeros.
fn see(ctx: &mut Ctx, p: &MP) -> Vec<Roots<f64>> {
    let small = p.degree().unwrap_or(0) < 1000;
    let mut all = vec![];
    let s = sparse::<f64>(p, &mut ctx.rng);
    if s.terms.len() > p.t.len() {
        ctx.bump("sparse with stored zeros");
    }
    let text = brief(&s);
    if let Some(r) = ctx.op("SparsePolynomial.roots", || s.roots()) {
        ctx.log(|| format!("roots of {}: {:?}", text, r));
        all.push(r);
    }
    if small {
        let d = dense::<f64>(p, &mut ctx.rng);
        if d.terms.len() > p.degree().map_or(0, |d| d + 1) {
            ctx.bump("dense with stored leading zeros");
        }
        let text = brief(&d);
        if let Some(r) = ctx.op("Polynomial.roots", || d.roots()) {
            ctx.log(|| format!("roots of {}: {:?}", text, r));
            all.push(r);
        }
    }
    all
}

fn list(r: &Roots<f64>) -> Option<(Vec<C>, bool)> {
    let real = |v: &[f64]| v.iter().map(|x| C::new(*x, 0.)).collect::<Vec<_>>();
    Some(match r {
        Roots::ManyRealRoots(v) => (real(v), true),
        Roots::OneRealRoot(a) => (real(&[*a]), true),
        Roots::TwoRealRoots(a, b) => (real(&[*a, *b]), true),
        Roots::ThreeRealRoots(a, b, c) => (real(&[*a, *b, *c]), true),
        Roots::ManyComplexRoots(v) => (v.clone(), false),
        Roots::OneComplexRoot(a) => (vec![*a], false),
        Roots::TwoComplexRoots(a, b) => (vec![*a, *b], false),
        Roots::ThreeComplexRoots(a, b, c) => (vec![*a, *b, *c], false),
        _ => return None,
    })
}

/// Whether the lists are the same up to order, within the tolerance.
fn matches(got: &[C], want: &[C], tol: f64) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut left = want.to_vec();
    got.iter().all(|g| {
        let Some((i, d)) = left
            .iter()
            .enumerate()
            .map(|(i, w)| (i, (g - w).norm()))
            .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
        else {
            return false;
        };
        let ok = d <= tol;
        left.swap_remove(i);
        ok
    })
}

fn spread(got: &[C], want: &[C]) -> f64 {
    got.iter().map(|g| want.iter().map(|w| (g - w).norm()).fold(f64::INFINITY, f64::min)).fold(0., f64::max)
}

fn f(d: &Dy) -> f64 {
    d.approx()
}

/// |p(z)| relative to the sum of |a_i| r^i, with r about as large as the largest root.
fn residual(p: &MP, z: C) -> f64 {
    let n = p.degree().unwrap();
    let top = f(&p.get(n));
    let r =
        p.t.iter()
            .filter(|(d, _)| **d < n)
            .map(|(d, c)| (f(c) / top).abs().powf(1. / (n - d) as f64))
            .fold(z.norm(), f64::max);
    let mut sum = C::new(0., 0.);
    let mut size = 0.;
    for (d, c) in &p.t {
        sum += z.powu(*d as u32) * f(c);
        size += f(c).abs() * r.powi(*d as i32);
    }
    sum.norm() / size
}

fn s_special(ctx: &mut Ctx) {
    let p = match ctx.index % 4 {
        0 => MP::zero(),
        1 => MP::constant(any(ctx)),
        2 => MP::term(any(ctx), 1 + ctx.rng.usize(40)),
        _ => MP::term(any(ctx), degree(&mut ctx.rng, usize::MAX).max(1)),
    };
    let want = match (p.degree(), p.get(0).is_zero()) {
        (None, _) => Roots::InfiniteRoots,
        (Some(0), _) => Roots::NoRoots,
        _ => Roots::ManyRealRoots(vec![0.]),
    };
    ctx.sample(|| p.show());
    for r in see(ctx, &p) {
        let ok = match &want {
            Roots::ManyRealRoots(_) => list(&r).map_or(false, |(v, real)| {
                real && !v.is_empty() && v.iter().all(|z| z.re == 0. && z.im == 0.) && v.len() <= p.degree().unwrap()
            }),
            w => r == *w,
        };
        ctx.check(ok, || format!("roots of {}: {}, expected {:?}", p.show(), brief(&r), want));
    }
    ctx.distinct(p.hash());
}

fn any(ctx: &mut Ctx) -> Dy {
    loop {
        let bits = 1 + ctx.rng.below(53) as u32;
        let mut c = coef::<f64>(&mut ctx.rng, bits, 0);
        c.e += ctx.rng.range(-300, 300);
        if !c.is_zero() {
            return c;
        }
    }
}

/// Linear and quadratic polynomials: textbook accuracy, as for the fixed-size types.
fn s_low(ctx: &mut Ctx) {
    let [a, b, c] = generate::<f64>(&mut ctx.rng);
    let mut p = MP::zero();
    for (c, d) in [(&a, 2), (&b, 1), (&c, 0)] {
        p.add_term(c, d);
    }
    if p.t.len() < 2 || p.degree() == Some(0) {
        return;
    }
    ctx.sample(|| p.show());
    ctx.distinct(p.hash());
    for r in see(ctx, &p) {
        judge_low(ctx, &p, [&a, &b, &c], &r);
    }
}

fn judge_low(ctx: &mut Ctx, p: &MP, [a, b, c]: [&Dy; 3], r: &Roots<f64>) {
    let what = format!("roots of {}: {}", p.show(), brief(&r));
    let Some((v, real)) = list(r) else {
        ctx.fail(what);
        return;
    };
    if a.is_zero() {
        match (&v[..], real) {
            ([x], true) => judge_linear(ctx, &what, nz::<f64>(b), nz::<f64>(c), &Roots::OneRealRoot(x.re)),
            _ => ctx.fail(what),
        }
        return;
    }
    let d = b.mul(b).sub(&a.mul(c).mul(&Dy::int(4)));
    let size = b.mul(b).add(&a.mul(c).mul(&Dy::int(4)).abs());
    let exact = <f64 as Coef>::fits(&b.mul(b)) && <f64 as Coef>::fits(&a.mul(c).mul(&Dy::int(4))) && <f64 as Coef>::fits(&size);
    let unit = Dy { m: num::BigInt::from(16), e: -53 };
    if !exact && d.abs() <= size.mul(&unit) {
        ctx.bump("skipped: the sign of the discriminant is not determined");
        return;
    }
    let root_d = quadratic::sqrt(&d.abs());
    let two_a = a.mul(&Dy::int(2));
    let mut t = b.abs().add(&root_d);
    if !exact && !root_d.is_zero() {
        t = t.add(&quadratic::div(&size, &root_d));
    }
    let tol = quadratic::div(&t, &two_a.abs()).mul(&unit);
    let q = |x: &Dy| quadratic::div(x, &two_a);
    let want: [(Dy, Dy); 2] = if d.is_neg() {
        ctx.bump("quadratics with a complex pair");
        [(q(&b.neg()), q(&root_d)), (q(&b.neg()), q(&root_d.neg()))]
    } else {
        ctx.bump("quadratics with real roots");
        [(q(&b.neg().add(&root_d)), Dy::zero()), (q(&b.neg().sub(&root_d)), Dy::zero())]
    };
    let near = |g: f64, w: &Dy| Dy::from_f64(g).map_or(false, |g| g.sub(w).abs() <= tol);
    let is = |g: &C, w: &(Dy, Dy)| near(g.re, &w.0) && near(g.im, &w.1);
    let ok = real != d.is_neg() && v.len() == 2 && ((is(&v[0], &want[0]) && is(&v[1], &want[1])) || (is(&v[1], &want[0]) && is(&v[0], &want[1])));
    ctx.check(ok, || {
        format!("{}, expected {:?}", what, want.iter().map(|w| C::new(w.0.approx(), w.1.approx())).collect::<Vec<_>>())
    });
}

/// A multiple of 2^-8 with absolute value at most max.
fn point(ctx: &mut Ctx, max: i64) -> Dy {
    let m = match ctx.rng.below(4) {
        0 => ctx.rng.range(-max, max) * 256,
        1 => ctx.rng.range(-max * 4, max * 4) * 64,
        _ => ctx.rng.range(-max * 256, max * 256),
    };
    Dy { m: num::BigInt::from(m), e: -8 }
}

/// n points at least half apart.
fn points(ctx: &mut Ctx, n: usize, max: i64) -> Vec<Dy> {
    let mut v: Vec<Dy> = vec![];
    while v.len() < n {
        let x = point(ctx, max);
        if v.iter().all(|y| x.sub(y).abs().approx() >= 0.5) {
            v.push(x);
        }
    }
    v
}

/// x^2 - 2 a x + a^2 + b^2 with its roots.
fn pair(ctx: &mut Ctx) -> (MP, [C; 2]) {
    let a = point(ctx, 4);
    let b = loop {
        let b = point(ctx, 4);
        if b.abs().approx() >= 1. {
            break b;
        }
    };
    let mut p = MP::term(Dy::one(), 2);
    p.add_term(&a.mul(&Dy::int(-2)), 1);
    p.add_term(&a.mul(&a).add(&b.mul(&b)), 0);
    (p, [C::new(f(&a), f(&b)), C::new(f(&a), -f(&b))])
}

fn linear(r: &Dy) -> MP {
    let mut p = MP::term(Dy::one(), 1);
    p.add_term(&r.neg(), 0);
    p
}

fn lead(ctx: &mut Ctx) -> Dy {
    let x = *ctx.rng.pick(&[1., -1., 2., -3., 0.5, 7.25, 0.015625, -100.]);
    Dy::from_f64(x).unwrap()
}

/// The polynomial with coefficients rounded to floats.
fn rounded(p: &MP) -> MP {
    let mut q = MP::zero();
    for (d, c) in &p.t {
        q.add_term(&Dy::from_f64(c.approx()).unwrap(), *d);
    }
    q
}

fn build(k: &Dy, real: &[Dy], pairs: &[MP]) -> MP {
    let mut p = MP::constant(k.clone());
    for r in real {
        p = p.mul(&linear(r));
    }
    for q in pairs {
        p = p.mul(q);
    }
    rounded(&p)
}

fn s_cubic(ctx: &mut Ctx) {
    let k = lead(ctx);
    if ctx.rng.chance(30) {
        // Any cubic: three roots, each of which is one.
        let mut p = MP::term(k, 3);
        for d in 0..3 {
            if ctx.rng.chance(75) {
                let c = point(ctx, 20);
                p.add_term(&c, d);
            }
        }
        if p.t.len() < 2 {
            return;
        }
        ctx.sample(|| p.show());
        ctx.distinct(p.hash());
        for r in &see(ctx, &p) {
            let what = || format!("roots of {}: {}", p.show(), brief(&r));
            let Some((v, real)) = list(r) else {
                ctx.fail(what());
                return;
            };
            ctx.check(v.len() == 3, || format!("three roots expected: {}", what()));
            ctx.check(!real || v.iter().all(|z| z.im == 0.), what);
            for z in &v {
                let e = residual(&p, *z);
                ctx.max("worst residual of an arbitrary cubic, in 1e-12", (e * 1e12) as u64);
                ctx.check(e < 1e-4, || format!("{} is not a root (residual {:e}): {}", z, e, what()));
            }
        }
        return;
    }
    let (p, want, all_real) = if ctx.rng.bool() {
        let v = points(ctx, 3, 10);
        (build(&k, &v, &[]), v.iter().map(|r| C::new(f(r), 0.)).collect::<Vec<_>>(), true)
    } else {
        let r = point(ctx, 10);
        let (q, z) = pair(ctx);
        (build(&k, &[r.clone()], &[q]), vec![C::new(f(&r), 0.), z[0], z[1]], false)
    };
    ctx.bump(if all_real { "cubics with three real roots" } else { "cubics with a complex pair" });
    ctx.sample(|| p.show());
    ctx.distinct(p.hash());
    for r in &see(ctx, &p) {
        let ok = match list(r) {
            Some((v, real)) if real == all_real => {
                ctx.max("worst error of a cubic root, in 1e-12", (spread(&v, &want) * 1e12) as u64);
                matches(&v, &want, 1e-4)
            }
            _ => false,
        };
        ctx.check(ok, || format!("roots of {}: {}, expected {:?}", p.show(), brief(&r), want));
    }
}

/// All cubics with integer roots from -7 to 7, simple ones.
fn s_cubic_grid(ctx: &mut Ctx) {
    let i = ctx.index as i128;
    let (a, b) = (i / 15 - 7, i % 15 - 7);
    if a >= b {
        return;
    }
    ctx.distinct(ctx.index);
    ctx.sample(|| format!("roots {} {} and a third", a, b));
    for c in b + 1..=7 {
        for k in [1, -1, 3] {
            let v = [a, b, c].map(Dy::int);
            let p = build(&Dy::int(k), &v, &[]);
            let want: Vec<C> = v.iter().map(|r| C::new(f(r), 0.)).collect();
            for r in &see(ctx, &p) {
                let ok = list(r).map_or(false, |(v, real)| real && matches(&v, &want, 1e-5));
                ctx.check(ok, || format!("roots of {}: {}, expected {:?}", p.show(), brief(&r), want));
            }
        }
    }
}

fn real_only(ctx: &mut Ctx, p: &MP, real: &[f64], complex: usize, tol: f64) {
    for r in see(ctx, p) {
        let want: Vec<C> = real.iter().map(|x| C::new(*x, 0.)).collect();
        let ok = match (&r, real.len(), complex) {
            (Roots::NoRoots, 0, _) => true,
            (Roots::ManyRealRoots(v), _, 0) | (Roots::OnlyRealRoots(v), _, 1..) if !real.is_empty() => {
                let v: Vec<C> = v.iter().map(|x| C::new(*x, 0.)).collect();
                ctx.max("worst error of a root of degree four or more, in 1e-12", (spread(&v, &want) * 1e12) as u64);
                matches(&v, &want, tol)
            }
            _ => false,
        };
        ctx.check(ok, || format!("roots of {}: {}, expected {:?} and {} complex ones", p.show(), brief(&r), real, complex));
    }
}

fn s_quartic(ctx: &mut Ctx) {
    let k = lead(ctx);
    let v = points(ctx, 4, 8);
    let p = build(&k, &v, &[]);
    ctx.sample(|| p.show());
    ctx.distinct(p.hash());
    let v: Vec<f64> = v.iter().map(f).collect();
    real_only(ctx, &p, &v, 0, 1e-5);
}

/// Quartics of the grid which are known findings: roots a and b, times x^2 + s x + t.
const FAIL: [(i128, i128, i128, i128); 3] = [(-9, -3, 0, 1), (0, 8, 0, 4), (1, 9, -2, 5)];

/// x^2 + s x + t without real roots.
const QUADRATICS: [(i128, i128); 13] = [(0, 1), (0, 4), (0, 9), (1, 1), (-1, 1), (2, 3), (-2, 3), (1, 7), (-1, 7), (2, 5), (-2, 5), (4, 5), (-4, 5)];

/// Quartics with two integer roots and two complex ones.
fn s_quartic_pair(ctx: &mut Ctx) {
    let i = ctx.index as i128;
    let (a, b) = (i / 21 - 10, i % 21 - 10);
    if a >= b {
        return;
    }
    ctx.distinct(ctx.index);
    ctx.sample(|| format!("roots {} and {}, times a quadratic without real roots", a, b));
    for (s, t) in QUADRATICS {
        if FAIL.contains(&(a, b, s, t)) {
            continue;
        }
        for k in [1, -2] {
            let mut q = MP::term(Dy::one(), 2);
            q.add_term(&Dy::int(s), 1);
            q.add_term(&Dy::int(t), 0);
            let p = build(&Dy::int(k), &[Dy::int(a), Dy::int(b)], &[q]);
            real_only(ctx, &p, &[a as f64, b as f64], 2, 1e-5);
        }
    }
}

/// Quintics and sextics with all of their roots among the integers from -5 to 5, simple ones.
fn s_integers(ctx: &mut Ctx) {
    let set: Vec<i128> = (0..11).filter(|i| ctx.index >> i & 1 == 1).map(|i| i - 5).collect();
    if set.len() < 5 || set.len() > 6 {
        return;
    }
    ctx.distinct(ctx.index);
    ctx.sample(|| format!("roots {:?}", set));
    let v: Vec<Dy> = set.iter().map(|r| Dy::int(*r)).collect();
    let r: Vec<f64> = set.iter().map(|r| *r as f64).collect();
    for k in [1, -2] {
        let p = build(&Dy::int(k), &v, &[]);
        real_only(ctx, &p, &r, 0, 1e-3);
    }
}

/// Quintics and sextics with two complex roots, the others among the integers from -5 to 5.
fn s_mixed(ctx: &mut Ctx) {
    let set: Vec<i128> = (0..11).filter(|i| ctx.index >> i & 1 == 1).map(|i| i - 5).collect();
    if set.len() < 3 || set.len() > 4 {
        return;
    }
    ctx.distinct(ctx.index);
    ctx.sample(|| format!("roots {:?}, times a quadratic without real roots", set));
    let v: Vec<Dy> = set.iter().map(|r| Dy::int(*r)).collect();
    let r: Vec<f64> = set.iter().map(|r| *r as f64).collect();
    for (s, t) in QUADRATICS {
        if (&set[..], s, t) == (&[-5, 3, 4, 5], -1, 1) {
            // A known finding.
            continue;
        }
        let mut q = MP::term(Dy::one(), 2);
        q.add_term(&Dy::int(s), 1);
        q.add_term(&Dy::int(t), 0);
        for k in [1, -2] {
            let p = build(&Dy::int(k), &v, &[q.clone()]);
            real_only(ctx, &p, &r, 2, 1e-3);
        }
    }
}

fn s_none(ctx: &mut Ctx) {
    let n = 2 + ctx.rng.usize(3);
    let pairs: Vec<MP> = (0..n).map(|_| pair(ctx).0).collect();
    let k = lead(ctx);
    let p = build(&k, &[], &pairs);
    ctx.sample(|| p.show());
    ctx.distinct(p.hash());
    ctx.bump(&format!("degree {} without real roots", 2 * n));
    real_only(ctx, &p, &[], 2 * n, 0.);
}

/// Higher degrees: it ends, without panic, and reports as many values as there can be.
fn s_higher(ctx: &mut Ctx) {
    let n = 5 + ctx.rng.usize(6);
    let real = ctx.rng.usize(n + 1);
    let k = lead(ctx);
    let roots: Vec<Dy> = (0..real).map(|_| point(ctx, 6)).collect();
    let pairs: Vec<MP> = (0..(n - real) / 2).map(|_| pair(ctx).0).collect();
    let p = if ctx.rng.bool() {
        build(&k, &roots, &pairs)
    } else {
        let mut p = MP::term(k, n);
        for d in 0..n {
            if ctx.rng.bool() {
                let c = point(ctx, 20);
                p.add_term(&c, d);
            }
        }
        p
    };
    if p.t.len() < 2 {
        return;
    }
    ctx.sample(|| p.show());
    ctx.distinct(p.hash());
    let deg = p.degree().unwrap();
    for r in see(ctx, &p) {
        let ok = match &r {
            Roots::NoRoots | Roots::NoRootsFound => true,
            Roots::ManyRealRoots(v) => v.len() == deg,
            Roots::OnlyRealRoots(v) => !v.is_empty() && v.len() <= deg,
            _ => false,
        };
        ctx.check(ok || deg < 4, || format!("roots of {}: {}", p.show(), brief(&r)));
    }
}

fn bad(p: &[f64], want: impl Fn(&Roots<f64>) -> bool) -> bool {
    let p = p.to_vec();
    !guarded(move || want(&rustnomial::Polynomial::new(p).roots())).unwrap_or(false)
}

fn main() {
    let _ = hash_bytes;
    run::main(Spec {
        id: "C15",
        rule: "Polynomials are multiplied out exactly from chosen roots (dyadic points at least 1/2 apart, complex pairs at least 1 off the axis, including all integer root triples up to 7 and a grid of quartics with two integer roots); the reported roots have to be those, with the right classification, for the dense and the sparse polynomial, with and without stored zeros. Quadratics have the textbook error bound; arbitrary cubics are checked by their residual. Non-trivial: every such polynomial; distinct by coefficients.",
        assumptions: &["Coefficients are moderate; roots are well separated where completeness is required.", "For degrees above four only termination and the number of values, without real roots their absence, and for whole roots of degree five and six (at most one complex pair) the values are checked."],
        sections: vec![
            Section { name: "special", quick: 20_000, thorough: 200_000, f: s_special },
            Section { name: "low", quick: 100_000, thorough: 3_000_000, f: s_low },
            Section { name: "cubic", quick: 150_000, thorough: 6_000_000, f: s_cubic },
            Section { name: "cubic-grid", quick: 225, thorough: 225, f: s_cubic_grid },
            Section { name: "quartic", quick: 100_000, thorough: 3_000_000, f: s_quartic },
            Section { name: "quartic-pair", quick: 441, thorough: 441, f: s_quartic_pair },
            Section { name: "integers", quick: 2048, thorough: 2048, f: s_integers },
            Section { name: "mixed", quick: 2048, thorough: 2048, f: s_mixed },
            Section { name: "none", quick: 60_000, thorough: 1_500_000, f: s_none },
            Section { name: "higher", quick: 40_000, thorough: 1_000_000, f: s_higher },
        ],
        known: vec![
            Known {
                what: "Polynomial [-1.0, 0.026701408645170233, 4.633190272128131, 26.890008501942958, 18.368567282922537]: roots() reports NoRoots, but -0.77215... and 3.66532... are roots",
                fails: || bad(&[-1.0, 0.026701408645170233, 4.633190272128131, 26.890008501942958, 18.368567282922537], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 2)),
            },
            Known {
                what: "Polynomial [1.0, 12.0, 28.0, 12.0, 27.0]: roots() reports -9, -3, -3, 3, but only -9 and -3 are real roots",
                fails: || bad(&[1.0, 12.0, 28.0, 12.0, 27.0], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 2)),
            },
            Known {
                what: "Polynomial [1.0, -8.0, 4.0, -32.0, 0.0]: roots() reports NoRoots, but 0 and 8 are roots",
                fails: || bad(&[1.0, -8.0, 4.0, -32.0, 0.0], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 2)),
            },
            Known {
                what: "Polynomial [1.0, -12.0, 34.0, -68.0, 45.0]: roots() reports NoRoots, but 1 and 9 are roots",
                fails: || bad(&[1.0, -12.0, 34.0, -68.0, 45.0], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 2)),
            },
            Known {
                what: "Polynomial [-3.0, -22.5, -6.0, 139.5, 54.0, -162.0]: roots() reports -6, -3, -1.5, -1.5, 4.5 instead of -6, -3, -1.5, 1, 2",
                fails: || bad(&[-3.0, -22.5, -6.0, 139.5, 54.0, -162.0], |r| matches!(r, Roots::ManyRealRoots(v) if !v.iter().any(|x| (x - 4.5).abs() < 0.1))),
            },
            Known {
                what: "Polynomial [1.0, -8.0, -5.0, 181.0, -488.0, 475.0, -300.0]: roots() reports NoRoots, but -5, 3, 4 and 5 are roots",
                fails: || bad(&[1.0, -8.0, -5.0, 181.0, -488.0, 475.0, -300.0], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 4)),
            },
            Known {
                what: "Polynomial [2.0, -30.0, 166.0, -466.0, 676.0, -420.0]: roots() reports NoRoots, but 7 is a root",
                fails: || bad(&[2.0, -30.0, 166.0, -466.0, 676.0, -420.0], |r| matches!(r, Roots::OnlyRealRoots(v) if v.len() == 1)),
            },
            Known {
                what: "Polynomial [2.0, 612.0, -1570304.0, -354742272.0, 28941484032.0]: roots() reports NoRoots, but -928, -288, 64 and 846 are roots",
                fails: || bad(&[2.0, 612.0, -1570304.0, -354742272.0, 28941484032.0], |r| matches!(r, Roots::ManyRealRoots(v) if v.len() == 4)),
            },
        ],
    })
}
