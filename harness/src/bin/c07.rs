//! C07: parsing a well-formed polynomial string yields the polynomial it denotes.
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial, Term};
use std::fmt::Debug;
use std::str::FromStr;
use vh::rng::{hash_bytes, mix};
use vh::text::{self, noisy, read, Meaning, TermText};
use vh::*;

fn parse<N: Coef, P: PolyT<N> + FromStr>(ctx: &mut Ctx, s: &str, want: &MP)
where
    P::Err: Debug,
{
    let name = format!("{}::from_str", P::T);
    match ctx.op(&name, || P::from_str(s)) {
        None => ctx.fail(format!("{}<{}> of {:?}", name, N::NAME, s)),
        Some(Err(e)) => {
            ctx.bump("oracle comparisons");
            ctx.fail(format!("{}<{}> of {:.300}: {:?}, expected {}", name, N::NAME, format!("{:?}", s), e, want.show()))
        }
        Some(Ok(p)) => same(ctx, &format!("{} of {:?}", name, s), Some(p), want),
    }
}

fn join(rng: &mut Rng, t: &[TermText], level: u64) -> String {
    let mut s = t.iter().map(|t| noisy(rng, t, level)).collect::<String>();
    // Long runs of spaces.
    if rng.chance(1) {
        let places: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        for _ in 0..1 + rng.usize(2) {
            let at = *rng.pick(&places);
            let n = (1usize << (4 + rng.usize(14))) - 2 + rng.usize(5);
            s.insert_str(at, &" ".repeat(n));
        }
    }
    s
}

/// Terms with coefficient zero, of any degree: they denote nothing, and fit everywhere.
fn add_zeros<N: Coef>(rng: &mut Rng, t: &mut Vec<TermText>) {
    if !rng.chance(20) {
        return;
    }
    for _ in 0..1 + rng.usize(3) {
        let at = rng.usize(t.len() + 1);
        let d = degree(rng, usize::MAX);
        if let Some(z) = text::term::<N>(rng, &Dy::zero(), d, at == 0) {
            if at == 0 && !t.is_empty() && t[0].sign.is_none() {
                t[0].sign = Some('+');
            }
            t.insert(at, z);
        }
    }
}

fn level(rng: &mut Rng) -> u64 {
    *rng.pick(&[0u64, 0, 10, 30, 60])
}

fn dense_sparse<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    SparsePolynomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
{
    let n = match ctx.rng.below(6) {
        0 => 1,
        1 => 1 + ctx.rng.usize(40),
        _ => 1 + ctx.rng.usize(7),
    };
    let top = *ctx.rng.pick(&[1usize, 2, 3, 5, 12, 60, 3000]);
    let (mut t, mut sum) = text::terms::<N>(&mut ctx.rng, n, &mut |r| r.usize(top));
    if N::FLOAT && ctx.rng.chance(40) {
        // Decimal numerals, each degree once.
        t.clear();
        sum = MP::zero();
        for d in 0..1 + ctx.rng.usize(6) {
            let first = t.is_empty();
            if let Some(x) = text::decimal_term::<N>(&mut ctx.rng, d * (1 + top / 6), first) {
                sum.add_term(&x.coeff, x.degree);
                t.push(x);
            }
        }
    }
    if t.is_empty() {
        return;
    }
    add_zeros::<N>(&mut ctx.rng, &mut t);
    let l = level(&mut ctx.rng);
    let s = join(&mut ctx.rng, &t, l);
    if t.len() > 1 {
        ctx.distinct(hash_bytes(s.as_bytes()) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {:?}", N::NAME, s));
    // The independent reader agrees with the generator (otherwise the harness is wrong).
    match read::<N>(&s) {
        Meaning::Terms(_) => {}
        m => panic!("harness: {:?} is well-formed, but read as {:?}", s, m),
    }
    parse::<N, Polynomial<N>>(ctx, &s, &sum);
    parse::<N, SparsePolynomial<N>>(ctx, &s, &sum);
}

fn far<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
{
    let n = 1 + ctx.rng.usize(8);
    let (t, sum) = text::terms::<N>(&mut ctx.rng, n, &mut |r| match r.below(3) {
        0 => usize::MAX - r.usize(2),
        _ => degree(r, usize::MAX),
    });
    if t.is_empty() {
        return;
    }
    let l = level(&mut ctx.rng);
    let s = join(&mut ctx.rng, &t, l);
    ctx.distinct(hash_bytes(s.as_bytes()) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {:?}", N::NAME, s));
    ctx.max("degree", sum.degree().unwrap_or(0) as u64);
    parse::<N, SparsePolynomial<N>>(ctx, &s, &sum);
}

fn fixed<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    SparsePolynomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    LinearBinomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    QuadraticTrinomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    Monomial<N>: FromStr<Err = rustnomial::PolynomialFromStringError>,
    Term<N>: FromStr<Err = rustnomial::err::TermFromStringError>,
{
    let n = 1 + ctx.rng.usize(5);
    let l = level(&mut ctx.rng);
    let mut h = 0;
    let mut go = |ctx: &mut Ctx, top: usize| {
        let (mut t, sum) = text::terms::<N>(&mut ctx.rng, n, &mut |r| r.usize(top));
        add_zeros::<N>(&mut ctx.rng, &mut t);
        let s = join(&mut ctx.rng, &t, l);
        h ^= hash_bytes(s.as_bytes());
        ctx.sample(|| format!("{}: {:?}", N::NAME, s));
        (t, s, sum)
    };
    let (t, s, sum) = go(ctx, 2);
    if !t.is_empty() {
        parse::<N, LinearBinomial<N>>(ctx, &s, &sum);
        parse::<N, QuadraticTrinomial<N>>(ctx, &s, &sum);
        parse::<N, Polynomial<N>>(ctx, &s, &sum);
        parse::<N, SparsePolynomial<N>>(ctx, &s, &sum);
    }
    let (t, s, sum) = go(ctx, 3);
    if !t.is_empty() {
        parse::<N, QuadraticTrinomial<N>>(ctx, &s, &sum);
        parse::<N, Polynomial<N>>(ctx, &s, &sum);
    }
    // One degree only.
    let d = degree(&mut ctx.rng, usize::MAX);
    let (mut t, sum) = text::terms::<N>(&mut ctx.rng, n, &mut |_| d);
    add_zeros::<N>(&mut ctx.rng, &mut t);
    if !t.is_empty() {
        let s = join(&mut ctx.rng, &t, l);
        h ^= hash_bytes(s.as_bytes());
        parse::<N, Monomial<N>>(ctx, &s, &sum);
        parse::<N, SparsePolynomial<N>>(ctx, &s, &sum);
    }
    // A single term.
    let mut one = text::terms::<N>(&mut ctx.rng, 1, &mut |r| degree(r, usize::MAX)).0;
    if N::FLOAT && ctx.rng.bool() {
        let d = ctx.rng.usize(9);
        one = text::decimal_term::<N>(&mut ctx.rng, d, true).into_iter().collect();
    }
    if let Some(t) = one.pop() {
        let s = noisy(&mut ctx.rng, &t, l);
        h ^= hash_bytes(s.as_bytes());
        ctx.sample(|| format!("{}: term {:?}", N::NAME, s));
        if let Some(r) = ctx.op("Term::from_str", || Term::<N>::from_str(&s)) {
            let ok = match &r {
                Ok(Term::ZeroTerm) => t.coeff.is_zero(),
                Ok(Term::Term(c, d)) => !t.coeff.is_zero() && c.dy().as_ref() == Some(&t.coeff) && *d == t.degree,
                Err(_) => false,
            };
            ctx.check(ok, || format!("Term::<{}>::from_str({:?}): got {:?}", N::NAME, s, r));
        }
        let want = MP::term(t.coeff.clone(), t.degree);
        parse::<N, Monomial<N>>(ctx, &s, &want);
    }
    ctx.distinct(h ^ hash_bytes(N::NAME.as_bytes()));
}

/// Long texts.
fn long(ctx: &mut Ctx) {
    let n = 200 + ctx.rng.usize(3000);
    let top = *ctx.rng.pick(&[3usize, 100, 2000]);
    let mut sum = MP::zero();
    let mut s = String::new();
    for i in 0..n {
        let c = ctx.rng.range(-9999, 9999);
        let d = ctx.rng.usize(top);
        sum.add_term(&Dy::int(c as i128), d);
        if i > 0 || c < 0 {
            s.push(if c < 0 { '-' } else { '+' });
        }
        s.push_str(&format!("{}{}x^{}", if ctx.rng.chance(5) { "   " } else { "" }, c.abs(), d));
    }
    let h = ctx.rng.u64();
    ctx.distinct(h);
    ctx.max("length of a text", s.len() as u64);
    ctx.sample(|| format!("{} terms", n));
    parse::<i64, Polynomial<i64>>(ctx, &s, &sum);
    parse::<i64, SparsePolynomial<i64>>(ctx, &s, &sum);
    parse::<f64, Polynomial<f64>>(ctx, &s, &sum);
    parse::<i128, SparsePolynomial<i128>>(ctx, &s, &sum);
}

/// One long term: spaces and leading zeros.
fn drawn_out(ctx: &mut Ctx) {
    let most = 1usize << ctx.rng.usize(18);
    let c = ctx.rng.range(1, 9999);
    let d = if ctx.rng.chance(40) { 1 } else { ctx.rng.usize(3000) };
    let gap = |rng: &mut Rng| if rng.chance(40) { " ".repeat(rng.usize(most)) } else { String::new() };
    let zeros = |rng: &mut Rng| if rng.chance(20) { "0".repeat(rng.usize(most)) } else { String::new() };
    let negative = ctx.rng.bool();
    let mut s = gap(&mut ctx.rng);
    s.push_str(if negative { "-" } else { *ctx.rng.pick(&["", "+"]) });
    s += &gap(&mut ctx.rng);
    let unit = d > 0 && ctx.rng.chance(30);
    if !unit {
        s += &zeros(&mut ctx.rng);
        s += &c.to_string();
    }
    s += &gap(&mut ctx.rng);
    if d > 0 {
        s.push('x');
        s += &gap(&mut ctx.rng);
        if d > 1 || ctx.rng.bool() {
            s.push('^');
            s += &gap(&mut ctx.rng);
            s += &zeros(&mut ctx.rng);
            s += &d.to_string();
            s += &gap(&mut ctx.rng);
        }
    }
    let c = if unit { 1 } else { c } * if negative { -1 } else { 1 };
    ctx.distinct(mix(hash_bytes(s.as_bytes())));
    ctx.max("length of a text", s.len() as u64);
    ctx.sample(|| format!("{}x^{} in {} characters", c, d, s.len()));
    let want = MP::term(Dy::int(c as i128), d);
    parse::<i64, Polynomial<i64>>(ctx, &s, &want);
    parse::<i32, SparsePolynomial<i32>>(ctx, &s, &want);
    parse::<f64, Monomial<f64>>(ctx, &s, &want);
    if d <= 2 {
        parse::<i128, QuadraticTrinomial<i128>>(ctx, &s, &want);
    }
}

fn s_dense(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, dense_sparse(ctx));
}
fn s_far(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, far(ctx));
}
fn s_fixed(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, fixed(ctx));
}

fn main() {
    run::main(Spec {
        id: "C07",
        rule: "Texts are generated together with the sum they denote (any order, repeated degrees, zero terms, omitted units, leading zeros, decimal numerals, spaces anywhere, commas and underscores between digits) and parsed by every type which can hold them; the stored value is compared with the sum. Non-trivial: at least two terms (far, fixed: every case); distinct by text and coefficient type.",
        assumptions: &["Sums of coefficients of one degree are in range, in any order.", "Decimal numerals denote what the standard library reads."],
        sections: vec![
            Section { name: "dense", quick: 70_000, thorough: 2_100_000, f: s_dense },
            Section { name: "far", quick: 42_000, thorough: 1_400_000, f: s_far },
            Section { name: "fixed", quick: 42_000, thorough: 1_400_000, f: s_fixed },
            Section { name: "long", quick: 150, thorough: 5_000, f: long },
            Section { name: "drawn_out", quick: 1_500, thorough: 40_000, f: drawn_out },
        ],
        known: vec![],
    })
}
