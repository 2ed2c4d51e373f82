//! C13: widening conversions preserve every coefficient and degree.
use rustnomial::{Degree, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, Term};
use vh::rng::hash_bytes;
use vh::*;

fn gen<A: Coef>(rng: &mut Rng) -> MP {
    let mut p = MP::zero();
    let n = match rng.below(4) {
        0 => length(rng, 200),
        _ => rng.usize(6),
    };
    let far = rng.chance(30);
    for i in 0..n {
        let d = if far { degree(rng, usize::MAX) } else { i };
        if p.t.contains_key(&d) || rng.chance(15) {
            continue;
        }
        p.add_term(&any_coef::<A>(rng).dy().unwrap(), d);
    }
    p
}

fn judge<A: Coef, B: Coef, P: PolyT<A>, Q: PolyT<B> + From<P> + SizedPolynomial<B>>(ctx: &mut Ctx, p: &P, v: &MP) {
    let what = format!("{}<{}> into {}<{}>", P::T, A::NAME, Q::T, B::NAME);
    let Some(q) = ctx.op(&what, || Q::from(p.clone())) else {
        ctx.fail(format!("{} of {}", what, brief(p)));
        return;
    };
    same(ctx, &format!("{} of {}", what, brief(p)), Some(q.clone()), v);
    // What the observers see.
    let deg = match q.degree() {
        Degree::NegInf => None,
        Degree::Num(d) => Some(d),
    };
    ctx.check(deg == v.degree(), || format!("{} of {}: degree {:?}", what, brief(p), deg));
    if let Some(d) = v.degree() {
        let t = q.term_with_degree(d);
        let ok = matches!(t, Term::Term(c, e) if e == d && c.dy() == Some(v.get(d)));
        ctx.check(ok, || format!("{} of {}: leading term {:?}", what, brief(p), t));
    }
}

fn pair<A: Coef, B: Coef>(ctx: &mut Ctx)
where
    Polynomial<B>: From<Polynomial<A>> + SizedPolynomial<B>,
    SparsePolynomial<B>: From<SparsePolynomial<A>> + SizedPolynomial<B>,
    Monomial<B>: From<Monomial<A>> + SizedPolynomial<B>,
    LinearBinomial<B>: From<LinearBinomial<A>> + SizedPolynomial<B>,
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>> + SizedPolynomial<B>,
{
    let v = gen::<A>(&mut ctx.rng);
    if !v.is_zero() {
        ctx.distinct(v.hash() ^ hash_bytes(A::NAME.as_bytes()) ^ hash_bytes(B::NAME.as_bytes()).rotate_left(3));
    }
    ctx.sample(|| format!("{} to {}: {}", A::NAME, B::NAME, v.show()));
    if let Some(p) = <Polynomial<A> as PolyT<A>>::build(&v, &mut ctx.rng) {
        judge::<A, B, _, Polynomial<B>>(ctx, &p, &v);
    }
    let s = sparse::<A>(&v, &mut ctx.rng);
    judge::<A, B, _, SparsePolynomial<B>>(ctx, &s, &v);
    let first = |v: &MP, n: usize| MP { t: v.t.range(0..n).map(|(d, c)| (*d, c.clone())).collect() };
    let m = {
        let keys: Vec<usize> = v.t.keys().copied().collect();
        if keys.is_empty() {
            MP::zero()
        } else {
            let d = *ctx.rng.pick(&keys);
            MP::term(v.get(d), d)
        }
    };
    let p = <Monomial<A> as PolyT<A>>::build(&m, &mut ctx.rng).unwrap();
    judge::<A, B, _, Monomial<B>>(ctx, &p, &m);
    let l = first(&v, 2);
    let p = <LinearBinomial<A> as PolyT<A>>::build(&l, &mut ctx.rng).unwrap();
    judge::<A, B, _, LinearBinomial<B>>(ctx, &p, &l);
    let q = first(&v, 3);
    let p = <QuadraticTrinomial<A> as PolyT<A>>::build(&q, &mut ctx.rng).unwrap();
    judge::<A, B, _, QuadraticTrinomial<B>>(ctx, &p, &q);
}

/// All values of the 8- and 16-bit types, as coefficients in each position.
fn sweep<A: Coef, B: Coef>(ctx: &mut Ctx)
where
    Polynomial<B>: From<Polynomial<A>> + SizedPolynomial<B>,
    SparsePolynomial<B>: From<SparsePolynomial<A>> + SizedPolynomial<B>,
    Monomial<B>: From<Monomial<A>> + SizedPolynomial<B>,
    LinearBinomial<B>: From<LinearBinomial<A>> + SizedPolynomial<B>,
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>> + SizedPolynomial<B>,
{
    let lo = A::min_v().dy().unwrap();
    let n = 1usize << (A::BITS + u32::from(A::SIGNED));
    let mut v = MP::zero();
    for i in 0..n {
        v.add_term(&lo.add(&Dy::int(i as i128)), i);
    }
    ctx.distinct(hash_bytes(format!("{} {}", A::NAME, B::NAME).as_bytes()));
    ctx.sample(|| format!("every {} to {}", A::NAME, B::NAME));
    let p = Polynomial { terms: coeffs::<A>(&v, 0, &mut ctx.rng) };
    judge::<A, B, _, Polynomial<B>>(ctx, &p, &v);
    let s = SparsePolynomial::<A> { terms: v.t.iter().map(|(d, c)| (*d, nz(c))).collect() };
    judge::<A, B, _, SparsePolynomial<B>>(ctx, &s, &v);
    let step = if n > 256 { 17 } else { 1 };
    for i in (0..n).step_by(step) {
        let c = lo.add(&Dy::int(i as i128));
        judge::<A, B, _, Monomial<B>>(ctx, &Monomial::<A>::new(nz(&c), i), &MP::term(c.clone(), i));
        for d in 0..3usize {
            let e = lo.add(&Dy::int(((i * 7 + 3) % n) as i128));
            let mut w = MP::term(c.clone(), d);
            w.add_term(&e, (d + 1) % 3);
            let t = <QuadraticTrinomial<A> as PolyT<A>>::build(&w, &mut ctx.rng).unwrap();
            judge::<A, B, _, QuadraticTrinomial<B>>(ctx, &t, &w);
            if d < 2 {
                let mut w = MP::term(c.clone(), d);
                w.add_term(&e, 1 - d);
                let t = <LinearBinomial<A> as PolyT<A>>::build(&w, &mut ctx.rng).unwrap();
                judge::<A, B, _, LinearBinomial<B>>(ctx, &t, &w);
            }
        }
    }
}

macro_rules! pairs {
    ($ctx:ident, $n:expr, $f:ident, $($a:ident $b:ident),* $(,)?) => {{
        let all: &[fn(&mut Ctx)] = &[$($f::<$a, $b>),*];
        assert_eq!(all.len() as u64, $n, "harness: number of pairs");
        all[($ctx.index % $n) as usize]($ctx)
    }};
}

fn s_pairs(ctx: &mut Ctx) {
    pairs!(
        ctx, 41, pair, u8 u16, u8 u32, u8 u64, u8 u128, u16 u32, u16 u64, u16 u128, u32 u64, u32 u128, u64 u128, u8 i16, u8 i32, u8 i64, u8 i128, u16 i32,
        u16 i64, u16 i128, u32 i64, u32 i128, u64 i128, i8 i16, i8 i32, i8 i64, i8 i128, i16 i32, i16 i64, i16 i128, i32 i64, i32 i128, i64 i128, u8 f32,
        u16 f32, i8 f32, i16 f32, u8 f64, u16 f64, u32 f64, i8 f64, i16 f64, i32 f64, f32 f64,
    )
}
fn s_sweep(ctx: &mut Ctx) {
    pairs!(
        ctx, 26, sweep, u8 u16, u8 u32, u8 u64, u8 u128, u16 u32, u16 u64, u16 u128, u8 i16, u8 i32, u8 i64, u8 i128, u16 i32, u16 i64, u16 i128, i8 i16, i8 i32,
        i8 i64, i8 i128, i16 i32, i16 i64, i16 i128, u8 f32, u16 f32, i8 f32, i16 f32, u8 f64,
    )
}
fn s_sweep2(ctx: &mut Ctx) {
    pairs!(ctx, 3, sweep, u16 f64, i8 f64, i16 f64)
}

fn main() {
    run::main(Spec {
        id: "C13",
        rule: "Polynomials of all five types over every source type are converted into every wider type (41 pairs); the exact value of every coefficient, read from the storage, and the leading term seen by the observers are compared with the source's. Every value of the 8- and 16-bit types is converted, and extremes and random values of the wider ones. Non-trivial: non-zero value; distinct by value and pair.",
        assumptions: &["Float coefficients are finite."],
        sections: vec![
            Section { name: "sweep", quick: 26, thorough: 26, f: s_sweep },
            Section { name: "sweep2", quick: 3, thorough: 3, f: s_sweep2 },
            Section { name: "pairs", quick: 123_000, thorough: 4_100_000, f: s_pairs },
        ],
        known: vec![],
    })
}
