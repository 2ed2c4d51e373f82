//! C11: integrals, definite integrals and constants of integration are right.
use num::BigInt;
use rustnomial::{integral, Evaluable, FreeSizePolynomial, Integrable, Integral, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::fmt::Display;
use vh::rng::hash_bytes;
use vh::text::canonical;
use vh::*;

/// The largest degree up to which the type has every number.
fn limit<N: Coef>() -> u128 {
    if N::FLOAT {
        1 << N::BITS
    } else if N::BITS >= 64 {
        u128::from(u64::MAX)
    } else {
        (1 << N::BITS) - 1
    }
}

fn has<N: Coef>(k: usize) -> Option<N> {
    N::from_dy(&Dy::int(k as i128))
}

/// The integral as the coefficient type computes it.
fn expected<N: Coef>(p: &MP) -> Option<MP> {
    let mut d = MP::zero();
    for (k, c) in &p.t {
        let n = has::<N>(k.checked_add(1)?)?;
        d.add_term(&(nz::<N>(c) / n).dy()?, k + 1);
    }
    Some(d)
}

/// Everything an integral offers, given the value of its polynomial.
fn observe<N: Coef, P: PolyT<N> + FreeSizePolynomial<N> + Evaluable<N>>(ctx: &mut Ctx, what: &str, i: &Integral<N, P>, v: &MP)
where
    Integral<N, P>: Display,
{
    same(ctx, &format!("inner of {}", what), Some(i.inner().clone()), v);
    if let Some(s) = ctx.op("Integral to text", || i.to_string()) {
        let want = if v.is_zero() { "C".to_string() } else { format!("{} + C", canonical::<N>(v)) };
        ctx.check(s == want, || format!("text of {}: got {:.300}, expected {:.300}", what, s, want));
    }
    // The constant.
    for _ in 0..2 {
        let c = any_coef::<N>(&mut ctx.rng);
        let r = ctx.op("Integral.replace_c", || i.replace_c(c));
        let mut w = v.clone();
        w.add_term(&c.dy().unwrap(), 0);
        same(ctx, &format!("replace_c({}) of {}", c, what), r, &w);
    }
    // Definite integrals.
    for _ in 0..3 {
        definite(ctx, what, i, v);
    }
    same(ctx, &format!("inner, after use, of {}", what), Some(i.inner().clone()), v);
}

fn definite<N: Coef, P: PolyT<N> + FreeSizePolynomial<N> + Evaluable<N>>(ctx: &mut Ctx, what: &str, i: &Integral<N, P>, v: &MP) {
    let deg = v.degree().unwrap_or(0);
    if deg > 400 {
        // Only the points whose powers are known without computing them.
        let sum = v.t.values().fold(Dy::zero(), |a, c| a.add(&c.abs()));
        let ok = if N::FLOAT { sum.log2_up() < 100 && v.t.values().all(|c| c.normal().e > -100) } else { N::fits(&sum) };
        if !ok {
            return;
        }
        let at1 = v.t.values().fold(Dy::zero(), |a, c| a.add(c));
        if at1.is_neg() && !N::SIGNED {
            return;
        }
        let (a, b, w) = match ctx.rng.below(3) {
            0 => (N::zero(), N::one(), at1),
            1 if N::SIGNED => (N::one(), N::zero(), at1.neg()),
            2 => (N::one(), N::one(), Dy::zero()),
            _ => (N::zero(), N::zero(), Dy::zero()),
        };
        let tol = if N::FLOAT { Some(sum.mul(&Dy { m: BigInt::from(v.t.len() + 8), e: -i64::from(N::BITS) })) } else { None };
        close(ctx, what, i, a, b, &w, tol);
        return;
    }
    let point = |ctx: &mut Ctx| -> Dy {
        if N::FLOAT {
            let e = ctx.rng.range(-4, 2);
            let b = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
            let mut x = coef::<N>(&mut ctx.rng, b, 0);
            x.e = e - x.m.bits() as i64;
            x
        } else {
            let b = *ctx.rng.pick(&[0u32, 1, 1, 2, 3, 5, 12]);
            coef::<N>(&mut ctx.rng, b, 0)
        }
    };
    let (mut a, mut b) = (point(ctx), point(ctx));
    if ctx.rng.chance(10) {
        b = a.clone();
    }
    if ctx.rng.chance(25) {
        a = Dy::zero();
    }
    let abs = v.abs();
    let bound = |a: &Dy, b: &Dy| abs.eval(&a.abs()).add(&abs.eval(&b.abs()));
    let mut s = bound(&a, &b);
    if N::FLOAT {
        let small = v.t.values().all(|c| c.log2_up() > -100 && c.log2_up() < 60);
        // No power underflows.
        let room = if N::BITS == 24 { 100 } else { 800 };
        let low = |x: &Dy| x.is_zero() || -(x.log2_up() - 1) * (deg as i64) < room - 100 + if N::BITS == 24 { 30 } else { 0 };
        if !small || s.log2_up() > 110 || (N::BITS == 24 && (deg > 20 || v.t.values().any(|c| c.log2_up() < -60))) || !low(&a) || !low(&b) {
            return;
        }
    } else {
        for _ in 0..8 {
            if N::fits(&s) {
                break;
            }
            a.m = a.m / 3;
            b.m = b.m / 3;
            s = bound(&a, &b);
        }
        if !N::fits(&s) || !N::fits(&a.abs()) || !N::fits(&b.abs()) {
            return;
        }
    }
    let mut w = v.eval(&b).sub(&v.eval(&a));
    if w.is_neg() && !N::SIGNED {
        std::mem::swap(&mut a, &mut b);
        w = w.neg();
    }
    if a != b {
        ctx.bump("definite integrals between distinct points");
    }
    let tol = if N::FLOAT { Some(s.mul(&Dy { m: BigInt::from(3 * deg + 2 * v.t.len() + 60), e: -i64::from(N::BITS) })) } else { None };
    close(ctx, what, i, nz(&a), nz(&b), &w, tol);
}

fn close<N: Coef, P: PolyT<N> + FreeSizePolynomial<N> + Evaluable<N>>(ctx: &mut Ctx, what: &str, i: &Integral<N, P>, a: N, b: N, want: &Dy, tol: Option<Dy>) {
    let Some(got) = ctx.op("Integral.eval", || i.eval(a, b)) else {
        ctx.fail(format!("{} from {} to {}", what, a, b));
        return;
    };
    let ok = match (got.dy(), &tol) {
        (None, _) => false,
        (Some(g), None) => g == *want,
        (Some(g), Some(t)) => g.sub(want).abs() <= *t,
    };
    ctx.check(ok, || format!("{} from {} to {}: got {}, expected {}", what, a, b, got, MP::constant(want.clone()).show()));
}

fn judge<N: Coef, Q, P>(ctx: &mut Ctx, q: &Q, want: &MP)
where
    Q: PolyT<N> + Integrable<N, P>,
    P: PolyT<N> + FreeSizePolynomial<N> + Evaluable<N>,
    Integral<N, P>: Display,
{
    let name = format!("{}.integral", Q::T);
    let before = q.clone();
    let Some(i) = ctx.op(&name, || q.integral()) else {
        ctx.fail(format!("{}<{}> of {}", name, N::NAME, brief(q)));
        return;
    };
    ctx.check(before == *q, || format!("{} changed its operand {:?}", name, before));
    observe(ctx, &format!("{}<{}> of {}", name, N::NAME, brief(q)), &i, want);
}

fn value<N: Coef>(rng: &mut Rng, style: u64) -> Dy {
    match style {
        0 => any_coef::<N>(rng).dy().unwrap(),
        1 => coef::<N>(rng, 6, 0),
        _ => coef::<N>(rng, N::BITS, if N::FLOAT { -20 } else { 0 }),
    }
}

/// Every type, degrees up to the largest which the coefficient type has.
fn rule<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Integrable<N, Polynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    SparsePolynomial<N>: Integrable<N, SparsePolynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    Monomial<N>: Integrable<N, SparsePolynomial<N>>,
    LinearBinomial<N>: Integrable<N, Polynomial<N>>,
    QuadraticTrinomial<N>: Integrable<N, Polynomial<N>>,
    Integral<N, Polynomial<N>>: Display,
    Integral<N, SparsePolynomial<N>>: Display,
{
    let cap = limit::<N>().min(1500) as usize;
    let n = match ctx.rng.below(6) {
        0 | 1 => ctx.rng.usize(4),
        2 | 3 => 1 + ctx.rng.usize(10),
        4 if ctx.rng.chance(20) => cap.min(300) - ctx.rng.usize(2),
        4 => ctx.rng.usize(20),
        _ => length(&mut ctx.rng, cap),
    }
    .min(cap);
    let style = ctx.rng.below(4);
    let vs = ctx.rng.below(3);
    let mut p = MP::zero();
    for k in 0..n {
        if style == 0 && k + 1 < n || style == 1 && ctx.rng.chance(50) {
            continue;
        }
        let mut c = value::<N>(&mut ctx.rng, vs);
        if ctx.rng.chance(40) && !N::FLOAT {
            // Something the divisor divides.
            let m = c.mul(&Dy::int(k as i128 + 1));
            if N::from_dy(&m).is_some() {
                c = m;
            }
        }
        p.add_term(&c, k);
    }
    let Some(v) = expected::<N>(&p) else {
        ctx.bump("skipped: out of range");
        return;
    };
    ctx.max("degree of a dense polynomial", p.degree().unwrap_or(0) as u64);
    if !p.is_zero() {
        ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {}", N::NAME, p.show()));
    each_type!(ctx, N, &p, q, {
        if !q.clone_is_risky::<N>() {
            judge(ctx, &q, &v);
        }
    });
    if limit::<N>() < 1000 && ctx.rng.chance(30) {
        // Zeros stored beyond the last degree the type has.
        let pad = limit::<N>() as usize + ctx.rng.usize(50);
        let t = coeffs::<N>(&p, pad, &mut ctx.rng);
        judge(ctx, &Polynomial { terms: t }, &v);
    }
    // An integral made from a polynomial.
    if ctx.rng.chance(40) {
        let d = dense::<N>(&v, &mut ctx.rng);
        observe(ctx, &format!("Integral::new({})", brief(&d)), &Integral::new(d.clone()), &v);
        let s = sparse::<N>(&v, &mut ctx.rng);
        observe(ctx, &format!("Integral::new({})", brief(&s)), &Integral::new(s.clone()), &v);
    }
    let low = MP { t: p.t.range(0..3).map(|(k, c)| (*k, c.clone())).collect() };
    let (a, b, c): (N, N, N) = (nz(&low.get(2)), nz(&low.get(1)), nz(&low.get(0)));
    if let Some(w) = expected::<N>(&low) {
        if let Some(i) = ctx.op("integral!", || integral!(a, b, c)) {
            observe(ctx, &format!("integral!({}, {}, {})", a, b, c), &i, &w);
        }
    }
}

/// A stored zero at a degree whose successor the type does not have makes no statement.
trait Risk {
    fn clone_is_risky<N: Coef>(&self) -> bool {
        false
    }
}
impl<M> Risk for Polynomial<M> {}
impl<M> Risk for LinearBinomial<M> {}
impl<M> Risk for QuadraticTrinomial<M> {}
impl<M: Coef> Risk for Monomial<M> {}
impl<M: Coef> Risk for SparsePolynomial<M> {
    fn clone_is_risky<N: Coef>(&self) -> bool {
        self.terms.keys().any(|k| *k == usize::MAX || has::<N>(k + 1).is_none())
    }
}

/// Few terms, any degree which the coefficient type has.
fn far<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: Integrable<N, SparsePolynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    Monomial<N>: Integrable<N, SparsePolynomial<N>>,
    Integral<N, SparsePolynomial<N>>: Display,
{
    let n = 1 + ctx.rng.usize(5);
    let mut p = MP::zero();
    let vs = ctx.rng.below(3);
    for _ in 0..n {
        let top = limit::<N>().min(u128::from(u64::MAX)) as usize;
        // The degree after integration.
        let mut k = match ctx.rng.below(5) {
            0 => top,
            1 => top - ctx.rng.usize(3),
            2 => (top / 2 + 2).saturating_sub(ctx.rng.usize(4)),
            3 if N::FLOAT => {
                let b = ctx.rng.usize(64);
                (ctx.rng.u64() as usize | 1 << 63) >> (64 - N::BITS as usize) << b.min(64 - N::BITS as usize)
            }
            _ => degree(&mut ctx.rng, top),
        };
        while k > 0 && has::<N>(k).is_none() {
            k &= k - 1;
        }
        if k == 0 || p.t.contains_key(&(k - 1)) {
            continue;
        }
        let mut c = value::<N>(&mut ctx.rng, vs);
        if ctx.rng.chance(60) && !N::FLOAT {
            let m = c.mul(&Dy::int(k as i128));
            if N::from_dy(&m).is_some() {
                c = m;
            } else if N::fits(&Dy::int(k as i128)) {
                c = Dy::int(k as i128);
            }
        }
        p.add_term(&c, k - 1);
    }
    let Some(v) = expected::<N>(&p) else {
        ctx.bump("skipped: out of range");
        return;
    };
    ctx.max("degree", p.degree().unwrap_or(0) as u64);
    ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {}", N::NAME, p.show()));
    let s = SparsePolynomial::<N> { terms: p.t.iter().map(|(k, c)| (*k, nz(c))).collect() };
    judge(ctx, &s, &v);
    if let Some((k, c)) = p.t.iter().next() {
        if let Some(w) = expected::<N>(&MP::term(c.clone(), *k)) {
            judge(ctx, &Monomial::<N>::new(nz(c), *k), &w);
        }
        let z = Monomial::<N>::new(N::some_zero(&mut ctx.rng), *k);
        judge(ctx, &z, &MP::zero());
    }
}

/// A degree the coefficient type does not have must panic.
fn beyond<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Integrable<N, Polynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    SparsePolynomial<N>: Integrable<N, SparsePolynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    Monomial<N>: Integrable<N, SparsePolynomial<N>>,
    Integral<N, SparsePolynomial<N>>: Display,
{
    let top = limit::<N>();
    if top >= u128::from(u64::MAX) {
        // Every degree can be represented: the largest one works.
        let k = usize::MAX - 1 - ctx.rng.usize(3);
        let c = Dy::int(k as i128 + 1);
        if N::fits(&c) {
            let w = MP::term(Dy::one(), k + 1);
            judge(ctx, &SparsePolynomial::<N> { terms: [(k, nz(&c))].into_iter().collect() }, &w);
            judge(ctx, &Monomial::<N>::new(nz(&c), k), &w);
        }
        return;
    }
    let top = top as usize;
    let k = loop {
        let k = match ctx.rng.below(6) {
            0 => top,
            1 => top + ctx.rng.usize(6),
            2 => top.saturating_mul(2).saturating_add(ctx.rng.usize(4)),
            3 => usize::MAX - 1 - ctx.rng.usize(9),
            4 => (1usize << ctx.rng.usize(64)).wrapping_add(ctx.rng.usize(5)),
            _ => top.saturating_add(degree(&mut ctx.rng, usize::MAX)),
        };
        if k >= top && k < usize::MAX && has::<N>(k + 1).is_none() {
            break k;
        }
    };
    let c = loop {
        let c = any_coef::<N>(&mut ctx.rng);
        if !c.is_zero() {
            break c;
        }
    };
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, c, k).as_bytes()));
    ctx.sample(|| format!("{}: {}x^{}", N::NAME, c, k));
    ctx.must_panic("Monomial past the limit", || Monomial::<N>::new(c, k).integral());
    let mut s = SparsePolynomial::<N> { terms: [(k, c)].into_iter().collect() };
    for _ in 0..ctx.rng.usize(3) {
        s.terms.insert(ctx.rng.usize(4), N::one());
    }
    ctx.must_panic("SparsePolynomial past the limit", || s.integral());
    if k < 70_000 {
        let pad = ctx.rng.usize(3);
        let mut t = vec![N::some_zero(&mut ctx.rng); pad];
        t.push(c);
        t.resize(pad + k + 1, N::zero());
        if ctx.rng.bool() {
            t[pad + k] = N::one();
        }
        let d = Polynomial { terms: t };
        ctx.must_panic("Polynomial past the limit", || d.integral());
    }
}

/// Dense polynomials as long as the coefficient type allows.
fn long(ctx: &mut Ctx) {
    fn go<N: Coef>(ctx: &mut Ctx, deg: usize, panics: bool)
    where
        Polynomial<N>: Integrable<N, Polynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    {
        ctx.sample(|| format!("{}: x^{}, must panic: {}", N::NAME, deg, panics));
        ctx.distinct(hash_bytes(format!("{} {}", N::NAME, deg).as_bytes()));
        let mut terms = vec![N::zero(); deg + 1];
        terms[0] = N::max_v();
        let mid = ctx.rng.usize(deg);
        terms[mid] = N::max_v();
        let p = Polynomial { terms };
        if panics {
            ctx.must_panic("Polynomial past the limit", || p.integral());
        } else {
            let m = N::max_v().dy().unwrap();
            let mut w = MP::term(m.clone(), deg);
            if mid != 0 {
                w.add_term(&m, deg - mid);
            }
            let w = expected::<N>(&w).unwrap();
            let r = ctx.op("Polynomial.integral", || p.integral());
            same(ctx, &format!("Polynomial<{}> of degree {}", N::NAME, deg), r.map(|r| r.inner().clone()), &w);
        }
    }
    match ctx.index {
        0 => go::<f32>(ctx, (1 << 24) - 1, false),
        1 => go::<f32>(ctx, 1 << 24, true),
        2 => go::<u16>(ctx, 65534, false),
        3 => go::<u16>(ctx, 65535, true),
        4 => go::<i16>(ctx, 32766, false),
        5 => go::<i16>(ctx, 32767, true),
        6 => go::<f64>(ctx, 1 << 24, false),
        7 => go::<u8>(ctx, 254, false),
        8 => go::<u8>(ctx, 255, true),
        9 => go::<i8>(ctx, 126, false),
        10 => go::<i8>(ctx, 127, true),
        11 => go::<u64>(ctx, 70_000, false),
        12 => go::<u32>(ctx, 70_000, false),
        13 => go::<i32>(ctx, 70_000, false),
        14 => go::<i64>(ctx, 70_000, false),
        _ => go::<i128>(ctx, 70_000, false),
    }
}

fn s_rule(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, rule(ctx));
}
fn s_far(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, far(ctx));
}
fn s_beyond(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, beyond(ctx));
}

fn main() {
    run::main(Spec {
        id: "C11",
        rule: "Polynomials of every type are integrated; the inner polynomial is compared with the coefficients divided as the type divides, the text with an independent formatter, replace_c with the value plus the constant, and definite integrals with the exact difference of the inner polynomial's values (within rounding for floats). Degrees go up to the largest the coefficient type has, and past it, where a panic must be observed. Non-trivial: non-zero value; distinct by value and coefficient type.",
        assumptions: &["Definite integrals of integers are in range in absolute value; float coefficients and points of definite integrals are moderate.", "A sparse polynomial does not store zeros at degrees whose successor the coefficient type lacks."],
        sections: vec![
            Section { name: "rule", quick: 36_000, thorough: 1_000_000, f: s_rule },
            Section { name: "far", quick: 96_000, thorough: 2_400_000, f: s_far },
            Section { name: "beyond", quick: 36_000, thorough: 600_000, f: s_beyond },
            Section { name: "long", quick: 16, thorough: 16, f: long },
        ],
        known: vec![],
    })
}
