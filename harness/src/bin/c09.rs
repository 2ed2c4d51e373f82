//! C09: displayed polynomials are canonical and parse back to the same value.
use rustnomial::{LinearBinomial, Monomial, Polynomial, PolynomialFromStringError as E, QuadraticTrinomial, SparsePolynomial};
use std::fmt::{Display, Write};
use std::str::FromStr;
use vh::rng::hash_bytes;
use vh::text::{canonical, read, Meaning};
use vh::*;

/// A writer which fails after a number of bytes.
struct Narrow(usize);
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn judge<N: Coef, P: PolyT<N> + Display + FromStr<Err = E>>(ctx: &mut Ctx, p: &P, v: &MP) {
    let name = format!("{} to text", P::T);
    let want = canonical::<N>(v);
    let Some(got) = ctx.op(&name, || p.to_string()) else {
        ctx.fail(format!("{}<{}> {:.300}", name, N::NAME, format!("{:?}", p)));
        return;
    };
    ctx.check(got == want, || format!("{}<{}> {:.300}: got {:.300}, expected {:.300}", name, N::NAME, format!("{:?}", p), format!("{:?}", got), format!("{:?}", want)));
    let name = format!("{} from its text", P::T);
    let Some(back) = ctx.op(&name, || P::from_str(&got)) else {
        ctx.fail(format!("{}<{}> {:.300} {:.300}", name, N::NAME, format!("{:?}", p), format!("{:?}", got)));
        return;
    };
    match back {
        Ok(q) => {
            ctx.check(q == *p, || format!("{}<{}> {:.300}: {:.300} is not equal to it", name, N::NAME, format!("{:?}", p), format!("{:?}", q)));
            same(ctx, &format!("{} {:.200}", name, format!("{:?}", got)), Some(q), v);
        }
        Err(e) => ctx.fail(format!("{}<{}> {:.300}, which is {:.300}: {:?}", name, N::NAME, format!("{:?}", p), format!("{:?}", got), e)),
    }
    // The independent reader reads the same value from the text.
    match read::<N>(&got) {
        Meaning::Terms(t) => {
            let r = from_terms(&t);
            ctx.check(r.as_ref() == Ok(v), || format!("the text {:.300} of {}<{}> {:.300} means {:?}", got, P::T, N::NAME, format!("{:?}", p), r.map(|r| r.show())));
        }
        m => ctx.fail(format!("the text {:.300} of {}<{}> {:.300} means {:?}", got, P::T, N::NAME, format!("{:?}", p), m)),
    }
    if ctx.rng.chance(10) {
        // Writing to a full writer is an error, not a panic.
        let n = ctx.rng.usize(got.len());
        let mut w = Narrow(n);
        if let Some(r) = ctx.op("text to a full writer", || write!(w, "{}", p)) {
            ctx.check(r.is_err(), || format!("{}<{}> {:.300}: the writer's error was dropped", P::T, N::NAME, format!("{:?}", p)));
        }
    }
}

fn pick<N: Coef>(rng: &mut Rng, style: u64) -> Dy {
    let c: N = match (style, rng.below(10)) {
        (0, _) | (_, 0) => N::one(),
        (1, 0..=6) | (_, 1) if N::SIGNED => N::zero() - N::one(),
        (2, _) | (_, 2) => N::min_v(),
        (3, 0..=4) => N::max_v(),
        _ => any_coef::<N>(rng),
    };
    c.dy().unwrap()
}

fn any<N: Coef>(ctx: &mut Ctx, sparse_only: bool)
where
    Polynomial<N>: Display + FromStr<Err = E>,
    SparsePolynomial<N>: Display + FromStr<Err = E>,
    Monomial<N>: Display + FromStr<Err = E>,
    LinearBinomial<N>: Display + FromStr<Err = E>,
    QuadraticTrinomial<N>: Display + FromStr<Err = E>,
{
    let style = ctx.rng.below(8);
    let n = match ctx.rng.below(6) {
        0 => ctx.rng.usize(2),
        1 | 2 => ctx.rng.usize(4),
        3 if ctx.rng.chance(2) => length(&mut ctx.rng, 3000),
        3 => length(&mut ctx.rng, 120),
        _ => ctx.rng.usize(8),
    };
    let mut p = MP::zero();
    let lone = ctx.rng.chance(20);
    for i in 0..n {
        let d = if sparse_only {
            degree(&mut ctx.rng, usize::MAX)
        } else if lone && i + 1 < n {
            continue;
        } else {
            i
        };
        if p.t.contains_key(&d) || (!sparse_only && ctx.rng.chance(25)) {
            continue;
        }
        let c = pick::<N>(&mut ctx.rng, style);
        p.add_term(&c, d);
    }
    ctx.max("terms", p.t.len() as u64);
    if p.t.values().any(|c| *c == N::min_v().dy().unwrap()) {
        ctx.bump("polynomials with the smallest value of their type");
    }
    if !p.is_zero() {
        ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {:.200}", N::NAME, canonical::<N>(&p)));
    each_type!(ctx, N, &p, q, { judge(ctx, &q, &p); });
    // The result of a cancelling operation, which leaves zeros behind.
    if !sparse_only && ctx.rng.chance(30) {
        let keep: Vec<usize> = p.t.keys().copied().filter(|_| ctx.rng.bool()).collect();
        let mut q = MP::zero();
        for d in &keep {
            q.add_term(&p.get(*d), *d);
        }
        let a = dense::<N>(&p, &mut ctx.rng);
        let rest = p.sub(&q);
        let terms: Vec<N> = {
            let mut v: Vec<N> = a.terms.clone();
            let k = v.len();
            for (i, c) in v.iter_mut().enumerate() {
                if keep.contains(&(k - 1 - i)) {
                    *c -= *c;
                }
            }
            v
        };
        judge(ctx, &Polynomial { terms }, &rest);
    }
}

/// Many terms: the text against one written term by term.
fn long_case(ctx: &mut Ctx) {
    let l = long::size(&mut ctx.rng, 15);
    let most = *ctx.rng.pick(&[1i64, 1, 20, 1_000_000]);
    let mut v = long::list(&mut ctx.rng, l, most);
    if ctx.rng.chance(20) {
        v.iter_mut().take(l.saturating_sub(1)).for_each(|c| *c = if *c < 0 { -1 } else { 1 });
    }
    let mut want = String::new();
    for (d, c) in v.iter().enumerate().rev().filter(|(_, c)| **c != 0) {
        match (want.is_empty(), *c < 0) {
            (true, true) => want.push('-'),
            (true, false) => {}
            (false, true) => want.push_str(" - "),
            (false, false) => want.push_str(" + "),
        }
        if c.abs() != 1 || d == 0 {
            want.push_str(&c.abs().to_string());
        }
        match d {
            0 => {}
            1 => want.push('x'),
            _ => want.push_str(&format!("x^{}", d)),
        }
    }
    if want.is_empty() {
        want.push('0');
    }
    ctx.distinct(hash_bytes(want.as_bytes()));
    ctx.max("terms", v.iter().filter(|c| **c != 0).count() as u64);
    ctx.max("length of a text", want.len() as u64);
    let what = format!("length {}", l);
    ctx.sample(|| what.clone());
    fn one<P: long::Coefficients + Display + FromStr<Err = E> + PartialEq>(ctx: &mut Ctx, what: &str, p: &P, want: &str, v: &[i64]) {
        let Some(got) = ctx.op("long text", || p.to_string()) else { return };
        let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let about = |s: &str| s.get(k.saturating_sub(10)..(k + 20).min(s.len())).unwrap_or("").to_string();
        ctx.check(got == want, || format!("text of a {} of {}: got ..{:?}.., expected ..{:?}.. at byte {}", P::kind(), what, about(&got), about(want), k));
        let Some(back) = ctx.op("long text parsed", || P::from_str(&got)) else { return };
        match back {
            Ok(q) => {
                ctx.check(q == *p, || format!("text of a {} of {} parses to something else", P::kind(), what));
                long::judge(ctx, || format!("parsed back, {}", what), Some(q), v);
            }
            Err(e) => ctx.fail(format!("text of a {} of {} does not parse: {:?}", P::kind(), what, e)),
        }
    }
    let zeros = padding(&mut ctx.rng);
    one(ctx, &what, &long::dense(&v, zeros), &want, &v);
    let stored = ctx.rng.bool();
    one(ctx, &what, &long::sparse(&v, stored), &want, &v);
}

/// Every coefficient of the small types, alone and after another term.
fn small<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Display + FromStr<Err = E>,
    SparsePolynomial<N>: Display + FromStr<Err = E>,
    Monomial<N>: Display + FromStr<Err = E>,
    LinearBinomial<N>: Display + FromStr<Err = E>,
    QuadraticTrinomial<N>: Display + FromStr<Err = E>,
{
    let k = ctx.index / 2;
    let c = Dy::int(k as i128 + if N::SIGNED { -128 } else { 0 });
    ctx.sample(|| format!("{}: {}", N::NAME, canonical::<N>(&MP::term(c.clone(), 1))));
    for d in 0..3usize {
        let mut p = MP::term(c.clone(), d);
        each_type!(ctx, N, &p, q, { judge(ctx, &q, &p); });
        for lead in [Dy::one(), Dy::int(5), N::min_v().dy().unwrap(), N::max_v().dy().unwrap()] {
            p = MP::term(c.clone(), d);
            p.add_term(&lead, d + 1);
            ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
            each_type!(ctx, N, &p, q, { judge(ctx, &q, &p); });
        }
    }
}

fn s_any(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, any(ctx, false));
}
fn s_far(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, any(ctx, true));
}
fn s_small(ctx: &mut Ctx) {
    if ctx.index % 2 == 0 {
        small::<i8>(ctx)
    } else {
        small::<u8>(ctx)
    }
}

fn main() {
    run::main(Spec {
        id: "C09",
        rule: "Polynomials of every type with coefficients anywhere in their type (units, extremes, subnormal and huge floats, stored zeros) are displayed; the text must equal that of an independent canonical formatter, be read to the same exact value by an independent reader, and parse back to an equal polynomial of the same type. A writer which runs full must give an error. Non-trivial: non-zero value; distinct by value and coefficient type.",
        assumptions: &["The text of a coefficient's magnitude is the one the standard library displays.", "Coefficients are finite."],
        sections: vec![
            Section { name: "small", quick: 512, thorough: 512, f: s_small },
            Section { name: "any", quick: 112_000, thorough: 3_000_000, f: s_any },
            Section { name: "far", quick: 56_000, thorough: 1_500_000, f: s_far },
            Section { name: "long", quick: 300, thorough: 8_000, f: long_case },
        ],
        known: vec![],
    })
}
