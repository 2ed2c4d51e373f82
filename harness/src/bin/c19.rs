//! C19: array polynomials and sparse trimming (optional features) behave like the core types.
use num::Complex;
use rustnomial::{ArrayPolynomial, Degree, Derivable, Evaluable, Integrable, MutablePolynomial, Polynomial, Roots, SizedPolynomial, SparsePolynomial, Term, TryAddError};
use vh::quadratic::{generate, judge, judge_linear, Seen};
use vh::rng::hash_bytes;
use vh::*;

fn array<N: Coef, const S: usize>(p: &MP, rng: &mut Rng) -> ArrayPolynomial<N, S> {
    let mut a = [N::zero(); S];
    for (i, c) in a.iter_mut().enumerate() {
        let d = p.get(S - 1 - i);
        *c = if d.is_zero() { N::some_zero(rng) } else { nz(&d) };
    }
    ArrayPolynomial::new(a)
}

/// A value of at most S coefficients.
fn value<N: Coef, const S: usize>(rng: &mut Rng, bits: u32) -> MP {
    let mut p = MP::zero();
    let style = rng.below(4);
    for d in 0..S {
        if style == 0 && rng.bool() || style == 1 && d + 1 != S || style == 2 && d * 2 > S {
            continue;
        }
        p.add_term(&coef::<N>(rng, bits, 0), d);
    }
    p
}

/// Compares everything which can be observed with the model.
fn watch<N: Coef, const S: usize>(ctx: &mut Ctx, what: &str, a: &ArrayPolynomial<N, S>, v: &MP) {
    let about = || format!("{}: {} expected of {} over {}, {} coefficients", what, v.show(), brief(a), N::NAME, S);
    let Some((vec, iter, degree, zero)) =
        ctx.op("observers", || (a.terms_as_vec(), a.ordered_term_iter().collect::<Vec<_>>(), a.degree(), a.is_zero()))
    else {
        ctx.fail(about());
        return;
    };
    ctx.check(from_terms(&vec) == Ok(v.clone()), || format!("terms_as_vec {:?}: {}", vec, about()));
    ctx.check(from_terms(&iter) == Ok(v.clone()), || format!("ordered_term_iter {:?}: {}", iter, about()));
    ctx.check(vec == iter && vec.windows(2).all(|w| w[0].1 > w[1].1), || format!("order {:?} {:?}: {}", vec, iter, about()));
    let want = v.degree().map_or(Degree::NegInf, Degree::Num);
    ctx.check(degree == want && zero == v.is_zero(), || format!("degree {:?}, is_zero {}: {}", degree, zero, about()));
    for d in (0..S + 2).chain([S + 40, usize::MAX, usize::MAX - 1, usize::MAX - S]) {
        let c = v.get(d);
        let Some(t) = ctx.op("term_with_degree", || a.term_with_degree(d)) else {
            ctx.fail(about());
            return;
        };
        let ok = match t {
            Term::ZeroTerm => c.is_zero(),
            Term::Term(x, e) => e == d && !c.is_zero() && x.dy().map_or(false, |x| x == c),
        };
        ctx.check(ok, || format!("term_with_degree({}) is {:?}: {}", d, t, about()));
    }
}

fn basics<N: Coef, const S: usize>(ctx: &mut Ctx)
where
    ArrayPolynomial<N, S>: SizedPolynomial<N> + MutablePolynomial<N> + Evaluable<N> + PartialEq + Clone,
{
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let v = if ctx.rng.chance(20) {
        let mut v = MP::zero();
        for d in 0..S {
            v.add_term(&any_coef::<N>(&mut ctx.rng).dy().unwrap(), d);
        }
        v
    } else {
        value::<N, S>(&mut ctx.rng, bits)
    };
    let a = array::<N, S>(&v, &mut ctx.rng);
    if !v.is_zero() {
        ctx.distinct(v.hash() ^ hash_bytes(N::NAME.as_bytes()) ^ S as u64);
    }
    ctx.sample(|| format!("{} over {}, {} coefficients", v.show(), N::NAME, S));
    watch(ctx, "new", &a, &v);
    // Equality of values.
    let b = array::<N, S>(&v, &mut ctx.rng);
    let mut w = v.clone();
    if S > 0 {
        let d = ctx.rng.usize(S);
        w.add_term(&Dy::one(), d);
        if w.is_zero() || ctx.rng.chance(20) {
            w = value::<N, S>(&mut ctx.rng, bits);
        }
    }
    if representable::<N>(&w) {
        let c = array::<N, S>(&w, &mut ctx.rng);
        if let Some(r) = ctx.op("==", || (a == b, b == a, a == a.clone(), a == c, c == a, a != c)) {
            let e = v == w;
            ctx.check(r == (true, true, true, e, e, !e), || format!("(==, ==, == clone, ==, ==, !=) is {:?}: {} and {} over {}", r, brief(&a), brief(&c), N::NAME));
        }
    }
    // Zero.
    if let Some(z) = ctx.op("zero", || ArrayPolynomial::<N, S>::zero()) {
        watch(ctx, "zero", &z, &MP::zero());
    }
    let mut z = a.clone();
    if ctx.op("set_to_zero", || z.set_to_zero()).is_some() {
        watch(ctx, "set_to_zero", &z, &MP::zero());
    }
    watch(ctx, "after cloning", &a, &v);
    // Evaluation.
    let bits = 1 + ctx.rng.below(u64::from(N::BITS) / 2) as u32;
    let v = value::<N, S>(&mut ctx.rng, bits);
    let a = array::<N, S>(&v, &mut ctx.rng);
    for b in [0u32, 1, 2, 3, 5] {
        let x = coef::<N>(&mut ctx.rng, b, 0);
        let size = v.abs().eval(&x.abs());
        if !N::fits(&size) {
            continue;
        }
        let point = if x.is_zero() { N::some_zero(&mut ctx.rng) } else { nz::<N>(&x) };
        if let Some(r) = ctx.op("eval", || a.eval(point)) {
            let want = v.eval(&x);
            ctx.check(r.dy().map_or(false, |r| r == want), || format!("{} at {} is {:?}, expected {}", v.show(), point, r, MP::constant(want.clone()).show()));
        }
    }
    watch(ctx, "after evaluation", &a, &v);
}

/// Histories of term additions and subtractions.
fn histories<N: Coef, const S: usize>(ctx: &mut Ctx)
where
    ArrayPolynomial<N, S>: SizedPolynomial<N> + MutablePolynomial<N> + PartialEq + Clone,
{
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let mut v = value::<N, S>(&mut ctx.rng, bits);
    let mut a = array::<N, S>(&v, &mut ctx.rng);
    let mut log = format!("{} over {}, {} coefficients", v.show(), N::NAME, S);
    for _ in 0..1 + ctx.rng.usize(20) {
        let d = match ctx.rng.below(8) {
            0 => S,
            1 => S + ctx.rng.usize(5),
            2 => match ctx.rng.below(4) {
                // Out of bounds, but not in its low bits.
                0 => (1 << ctx.rng.pick(&[8usize, 16, 31, 32, 33, 48, 63])) + ctx.rng.usize(S + 1),
                _ => usize::MAX - ctx.rng.usize(S + 2),
            },
            _ => ctx.rng.usize(S + 1),
        };
        let add = ctx.rng.bool();
        let c = match ctx.rng.below(5) {
            0 => v.get(d),
            1 if N::SIGNED => v.get(d).neg(),
            _ => coef::<N>(&mut ctx.rng, bits, 0),
        };
        if N::from_dy(&c).is_none() {
            continue;
        }
        let n: N = if c.is_zero() { N::some_zero(&mut ctx.rng) } else { nz(&c) };
        let mut w = v.clone();
        if d < S {
            w.add_term(&if add { c.clone() } else { c.neg() }, d);
            if !representable::<N>(&w) {
                continue;
            }
        }
        log += &format!(" {}({}, {})", if add { "add" } else { "sub" }, n, d);
        let name = if add { "try_add_term" } else { "try_sub_term" };
        let Some(r) = ctx.op(name, || if add { a.try_add_term(n, d) } else { a.try_sub_term(n, d) }) else {
            ctx.fail(log);
            return;
        };
        let ok = if d < S {
            r.is_ok()
        } else {
            ctx.bump("degrees out of bounds");
            c.is_zero() && r.is_ok() || matches!(r, Err(TryAddError::DegreeOutOfBounds))
        };
        ctx.check(ok, || format!("{:?}: {}", r, log));
        v = w;
        watch(ctx, &log, &a, &v);
    }
    ctx.distinct(hash_bytes(log.as_bytes()));
    ctx.sample(|| log);
}

fn calculus<N: Coef, const S: usize>(ctx: &mut Ctx)
where
    ArrayPolynomial<N, S>: Derivable<N> + Integrable<N, Polynomial<N>>,
{
    if N::from_dy(&Dy::int(S as i128)).is_none() {
        return;
    }
    let mut v = MP::zero();
    let style = ctx.rng.below(3);
    for d in 0..S {
        if style == 0 && ctx.rng.bool() {
            continue;
        }
        let k = Dy::int(d as i128).m;
        let c = if N::FLOAT || d == 0 {
            any_coef::<N>(&mut ctx.rng).dy().unwrap()
        } else {
            let top = N::max_v().dy().unwrap().m / k;
            match ctx.rng.below(4) {
                0 => Dy::big(top),
                1 if N::SIGNED => Dy::big(-top),
                _ => {
                    let b = (top.bits() as u32).saturating_sub(1).max(1);
                    coef::<N>(&mut ctx.rng, b, 0)
                }
            }
        };
        v.add_term(&c, d);
    }
    let mut derived = MP::zero();
    let mut integrated = MP::zero();
    for (d, c) in &v.t {
        let x: N = nz(c);
        let (Some(k), Some(k1)) = (N::from_dy(&Dy::int(*d as i128)), N::from_dy(&Dy::int(*d as i128 + 1))) else { return };
        if *d > 0 {
            if !N::FLOAT && N::from_dy(&c.mul(&Dy::int(*d as i128))).is_none() {
                return;
            }
            let Some(y) = (x * k).dy() else { return };
            derived.add_term(&y, d - 1);
        }
        let Some(y) = (x / k1).dy() else { return };
        integrated.add_term(&y, d + 1);
    }
    ctx.distinct(v.hash() ^ hash_bytes(N::NAME.as_bytes()) ^ S as u64);
    ctx.sample(|| format!("{} over {}, {} coefficients", v.show(), N::NAME, S));
    let a = array::<N, S>(&v, &mut ctx.rng);
    if let Some(d) = ctx.op("derivative", || a.derivative()) {
        watch(ctx, "derivative", &d, &derived);
    } else {
        ctx.fail(format!("derivative of {} over {}", v.show(), N::NAME));
    }
    if let Some(i) = ctx.op("integral", || a.integral()) {
        same(ctx, &format!("integral of {}", brief(&a)), Some(i.inner().clone()), &integrated);
        let r = ctx.op("replace_c", || i.replace_c(N::one()));
        let mut w = integrated.clone();
        w.add_term(&Dy::one(), 0);
        same(ctx, &format!("integral of {} with 1", brief(&a)), r, &w);
    } else {
        ctx.fail(format!("integral of {} over {}", v.show(), N::NAME));
    }
    watch(ctx, "after calculus", &a, &v);
}

trait Quad: Coef {
    fn disc(t: &ArrayPolynomial<Self, 3>) -> Self;
    fn roots(t: &ArrayPolynomial<Self, 3>) -> Roots<Self>;
    fn real(t: &ArrayPolynomial<Self, 3>) -> Option<(Self, [Self; 2], [Self; 2])>;
    fn complex(t: &ArrayPolynomial<Self, 3>) -> (Self, [Complex<Self>; 2], [Complex<Self>; 2]);
}
trait Linear: Coef {
    fn root(t: &ArrayPolynomial<Self, 2>) -> Roots<Self>;
}

fn two<T: Copy + num::Zero>(p: &ArrayPolynomial<T, 2>) -> [T; 2] {
    [1, 0].map(|d| match p.term_with_degree(d) {
        Term::Term(c, _) => c,
        Term::ZeroTerm => T::zero(),
    })
}

macro_rules! quad {
    ($($t:ident)*) => {$(
        impl Quad for $t {
            fn disc(t: &ArrayPolynomial<$t, 3>) -> $t { t.discriminant() }
            fn roots(t: &ArrayPolynomial<$t, 3>) -> Roots<$t> { t.roots() }
            fn real(t: &ArrayPolynomial<$t, 3>) -> Option<($t, [$t; 2], [$t; 2])> { t.real_factors().map(|(k, a, b)| (k, two(&a), two(&b))) }
            fn complex(t: &ArrayPolynomial<$t, 3>) -> ($t, [Complex<$t>; 2], [Complex<$t>; 2]) { let (k, a, b) = t.complex_factors(); (k, two(&a), two(&b)) }
        }
    )*};
}
macro_rules! linear {
    ($($t:ident)*) => {$(
        impl Linear for $t {
            fn root(t: &ArrayPolynomial<$t, 2>) -> Roots<$t> { t.root() }
        }
    )*};
}
quad!(i16 i32 i64 i128 isize f32 f64);
linear!(i8 i16 i32 i64 i128 isize f32 f64);

fn see<N: Quad>(ctx: &mut Ctx, p: [N; 3]) {
    let t = ArrayPolynomial::new(p);
    let what = format!("{:?} over {}", p, N::NAME);
    let before = t.clone();
    let all = (|| {
        let disc = ctx.op("discriminant", || N::disc(&t))?;
        let roots = ctx.op("roots", || N::roots(&t))?;
        let real = ctx.op("real_factors", || N::real(&t))?;
        let complex = if p[0].is_zero() { None } else { Some(ctx.op("complex_factors", || N::complex(&t))?) };
        Some(Seen { what: what.clone(), disc, roots, real, complex })
    })();
    match all {
        Some(s) => judge(ctx, p, &s),
        None => ctx.fail(what),
    }
    ctx.check(t == before, || "the polynomial changed".to_string());
}

fn quadratics<N: Quad>(ctx: &mut Ctx) {
    let p = generate::<N>(&mut ctx.rng);
    let v = MP { t: p.iter().rev().cloned().enumerate().filter(|(_, c)| !c.is_zero()).collect() };
    if !p[0].is_zero() {
        ctx.distinct(v.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {}", N::NAME, v.show()));
    let z = N::some_zero(&mut ctx.rng);
    let c = [0, 1, 2].map(|i: usize| if p[i].is_zero() { z } else { nz::<N>(&p[i]) });
    see(ctx, c);
}

fn grid<N: Quad>(ctx: &mut Ctx) {
    let side = 21i64;
    let i = (ctx.index / 7) as i64;
    let (a, b) = (i / side - side / 2, i % side - side / 2);
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, a, b).as_bytes()));
    ctx.sample(|| format!("{}: {}x^2 + {}x + c", N::NAME, a, b));
    for c in -10..=10 {
        see(ctx, [a, b, c].map(|c: i64| nz::<N>(&Dy::int(i128::from(c)))));
    }
}

fn lines<N: Linear>(ctx: &mut Ctx) {
    let bits = 1 + ctx.rng.below(u64::from(N::BITS) / 2) as u32;
    let (b, r) = (coef::<N>(&mut ctx.rng, bits, 0), coef::<N>(&mut ctx.rng, bits, 0));
    let mut c = if ctx.rng.bool() { b.mul(&r) } else { coef::<N>(&mut ctx.rng, N::BITS, 0) };
    if N::from_dy(&c).is_none() || N::from_dy(&c.neg()).is_none() || ctx.rng.chance(10) {
        c = Dy::zero();
    }
    let (b, c): (N, N) = (nz(&b), nz(&c));
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, b, c).as_bytes()));
    ctx.sample(|| format!("{}: {}x + {}", N::NAME, b, c));
    let t = ArrayPolynomial::new([b, c]);
    if let Some(r) = ctx.op("root", || N::root(&t)) {
        judge_linear(ctx, &format!("{:?} over {}", t, N::NAME), b, c, &r);
    } else {
        ctx.fail(format!("{:?} over {}", t, N::NAME));
    }
}

fn trimming<N: Coef>(ctx: &mut Ctx) {
    let n = ctx.rng.usize(14);
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let max = *ctx.rng.pick(&[8usize, 60, 1 << 40, usize::MAX]);
    let v = gen_sparse::<N>(&mut ctx.rng, n, max, bits, 0);
    let mut s = SparsePolynomial { terms: v.t.iter().map(|(d, c)| (*d, nz::<N>(c))).collect() };
    for _ in 0..ctx.rng.usize(12) {
        let d = degree(&mut ctx.rng, max);
        if v.get(d).is_zero() {
            s.terms.insert(d, N::some_zero(&mut ctx.rng));
        }
    }
    let before = s.clone();
    let zeros = s.terms.values().filter(|c| c.is_zero()).count();
    ctx.add("stored zeros", zeros as u64);
    if zeros > 0 {
        ctx.distinct(v.hash() ^ hash_bytes(format!("{} {:?}", N::NAME, s.terms.keys().collect::<Vec<_>>()).as_bytes()));
    }
    ctx.sample(|| format!("{} with {} stored zeros over {}", v.show(), zeros, N::NAME));
    if ctx.op("trim", || s.trim()).is_none() {
        ctx.fail(format!("trim of {}", brief(&before)));
        return;
    }
    let want: Vec<(usize, N)> = before.terms.iter().filter(|(_, c)| !c.is_zero()).map(|(d, c)| (*d, *c)).collect();
    let got: Vec<(usize, N)> = s.terms.iter().map(|(d, c)| (*d, *c)).collect();
    ctx.check(got == want, || format!("trim of {} left {}", brief(&before), brief(&s)));
    ctx.check(s == before && s.is_zero() == v.is_zero(), || format!("trim of {} is not equal: {}", brief(&before), brief(&s)));
    same(ctx, "trim", Some(s), &v);
}

macro_rules! by_size {
    ($ctx:ident, $f:ident, $n:ty) => {
        match $ctx.rng.below(37) / 4 {
            0 => $f::<$n, 0>($ctx),
            1 => $f::<$n, 1>($ctx),
            2 => $f::<$n, 2>($ctx),
            3 => $f::<$n, 3>($ctx),
            4 => $f::<$n, 4>($ctx),
            5 => $f::<$n, 5>($ctx),
            6 => $f::<$n, 8>($ctx),
            7 => $f::<$n, 17>($ctx),
            8 => $f::<$n, 127>($ctx),
            _ => $f::<$n, 300>($ctx),
        }
    };
}
macro_rules! each {
    ($ctx:ident, $f:ident, $($i:literal $t:ident)*) => {
        match $ctx.index as usize % [$($i),*].len() {
            $($i => by_size!($ctx, $f, $t),)*
            _ => unreachable!(),
        }
    };
}

fn s_basics(ctx: &mut Ctx) {
    each!(ctx, basics, 0 u8 1 u16 2 u32 3 u64 4 u128 5 usize 6 i8 7 i16 8 i32 9 i64 10 i128 11 isize 12 f32 13 f64)
}
fn s_histories(ctx: &mut Ctx) {
    each!(ctx, histories, 0 u8 1 u16 2 u32 3 u64 4 u128 5 usize 6 i8 7 i16 8 i32 9 i64 10 i128 11 isize 12 f32 13 f64)
}
fn s_quadratics(ctx: &mut Ctx) {
    match ctx.index % 7 {
        0 => quadratics::<i16>(ctx),
        1 => quadratics::<i32>(ctx),
        2 => quadratics::<i64>(ctx),
        3 => quadratics::<i128>(ctx),
        4 => quadratics::<isize>(ctx),
        5 => quadratics::<f32>(ctx),
        _ => quadratics::<f64>(ctx),
    }
}
fn s_grid(ctx: &mut Ctx) {
    match ctx.index % 7 {
        0 => grid::<i16>(ctx),
        1 => grid::<i32>(ctx),
        2 => grid::<i64>(ctx),
        3 => grid::<i128>(ctx),
        4 => grid::<isize>(ctx),
        5 => grid::<f32>(ctx),
        _ => grid::<f64>(ctx),
    }
}
fn s_lines(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, lines(ctx));
}
fn s_trim(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, trimming(ctx));
}

fn s_calculus(ctx: &mut Ctx) {
    each!(ctx, calculus, 0 u8 1 u16 2 u32 3 u64 4 u128 5 i8 6 i16 7 i32 8 i64 9 i128 10 f32 11 f64)
}

fn main() {
    run::main(Spec {
        id: "C19",
        rule: "Array polynomials with 0 to 300 coefficients of every coefficient type: after construction and after every term added or subtracted, all observers (terms, iterator, degree, zero, each term by degree, also far outside) are compared with a model; equality, evaluation, derivative, integral, roots, discriminant and factors are judged as for the core types. trim of a sparse polynomial has to leave exactly its non-zero terms. Built with the optional features on a nightly compiler. Non-trivial: value not zero (trim: zeros stored); distinct by value, size and type.",
        assumptions: &["Results stay in range; quadratics as for C14.", "NaN and infinite coefficients are not covered."],
        sections: vec![
            Section { name: "basics", quick: 70_000, thorough: 1_400_000, f: s_basics },
            Section { name: "histories", quick: 56_000, thorough: 1_120_000, f: s_histories },
            Section { name: "calculus", quick: 60_000, thorough: 1_200_000, f: s_calculus },
            Section { name: "quadratics", quick: 140_000, thorough: 4_200_000, f: s_quadratics },
            Section { name: "grid", quick: 21 * 21 * 7, thorough: 21 * 21 * 7, f: s_grid },
            Section { name: "lines", quick: 80_000, thorough: 1_600_000, f: s_lines },
            Section { name: "trim", quick: 140_000, thorough: 2_800_000, f: s_trim },
        ],
        known: vec![],
    })
}
