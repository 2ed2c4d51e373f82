//! C08: parsing never panics and rejects every malformed string with the right error.
use rustnomial::err::TermFromStringError as T;
use rustnomial::{
    LinearBinomial, Monomial, Polynomial, PolynomialFromStringError as E, QuadraticTrinomial, SparsePolynomial, Term, TryAddError as A,
};
use std::str::FromStr;
use vh::alloc::with_limit;
use vh::rng::{hash_bytes, mix};
use vh::text::{self, may_overflow, noisy, read, Meaning};
use vh::*;

/// Requests above this are refused while parsing.
const MEMORY: usize = 64 << 20;

fn rejects<N: Coef, P: PolyT<N> + FromStr<Err = E>>(ctx: &mut Ctx, s: &str, want: &[E]) {
    let name = format!("{}::from_str", P::T);
    let Some(r) = ctx.op(&name, || with_limit(MEMORY, || P::from_str(s))) else {
        ctx.fail(format!("{}<{}> of {:.300}", name, N::NAME, format!("{:?}", s)));
        return;
    };
    match r {
        Err(e) if want.contains(&e) => {
            ctx.bump("oracle comparisons");
            let n = format!("{:?}", e);
            ctx.bump(&format!("error {}", n.split(|c: char| !c.is_alphanumeric()).take(2).collect::<Vec<_>>().join(" ").trim_end()));
        }
        r => ctx.fail(format!("{}<{}> of {:.300}: got {:.300}, expected {:?}", name, N::NAME, format!("{:?}", s), format!("{:?}", r), want)),
    }
}

fn odd_char(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(4) {
            0 => *rng.pick(&['X', '*', '/', '(', ')', 'y', 'e', 'E', '=', '"', '\\', '%', '²', '³', 'ⅹ', '×', '−', '＋', '٣', '½', '\u{0}', '\u{7f}', '\u{feff}', '\u{200b}', 'i', 'n', 'a', '\u{301}', '😀', '·']),
            1 => rng.range(0x21, 0x7e) as u8 as char,
            _ => match char::from_u32(rng.below(0x11_0000) as u32) {
                Some(c) => c,
                None => continue,
            },
        };
        if !c.is_whitespace() && !matches!(c, '0'..='9' | 'x' | '^' | '+' | '-' | '.' | ',' | '_') {
            return c;
        }
    }
}

/// A text with one fault, and the error which names it.
fn fault<N: Coef>(rng: &mut Rng) -> (String, T) {
    let num = |rng: &mut Rng| (1 + rng.below(99)).to_string();
    let sign = |rng: &mut Rng| -> &'static str {
        if N::SIGNED {
            *rng.pick(&["", "+", "-"])
        } else {
            *rng.pick(&["", "+"])
        }
    };
    let s = sign(rng);
    let n = if rng.chance(70) { num(rng) } else { String::new() };
    let nn = num(rng);
    let d = num(rng);
    match rng.below(13) {
        0 => {
            // An unknown character anywhere in the term.
            let t: Vec<char> = format!("{}{}x^{}", s, nn, d).chars().collect();
            let k = s.len() + rng.usize(t.len() - s.len() + 1);
            let c = odd_char(rng);
            let mut o: String = t[..k].iter().collect();
            o.push(c);
            o.extend(&t[k..]);
            (o, T::UnexpectedChar(c))
        }
        1 => (
            match rng.below(4) {
                0 => format!("{}{}xx", s, n),
                1 => format!("{}{}xx^{}", s, n, d),
                2 => format!("{}{}x{}x", s, n, nn),
                _ => format!("{}{}x^{}x", s, n, d),
            },
            T::MoreThanOneX,
        ),
        2 => (
            match rng.below(3) {
                0 => format!("{}{}x^^{}", s, n, d),
                1 => format!("{}{}x^{}^{}", s, n, d, nn),
                _ => format!("{}{}x^{}^", s, n, d),
            },
            T::MultipleCarets,
        ),
        3 => (
            match rng.below(4) {
                0 => format!("{}{}^{}", s, nn, d),
                1 => format!("{}{}^", s, nn),
                2 => format!("{}^{}", s, d),
                _ => format!("{}{}x{}^{}", s, n, nn, d),
            },
            T::CaretWithoutXInFront,
        ),
        4 => (format!("{}{}x^", s, n), T::CaretWithoutDegree),
        5 => {
            // A signed degree: the sign starts a new term.
            let sg = if N::SIGNED && rng.bool() { "-" } else { "+" };
            (format!("{}{}x^{}{}", s, n, sg, d), T::CaretWithoutDegree)
        }
        6 => {
            // A degree which does not fit.
            let over = match rng.below(3) {
                0 => "18446744073709551616".to_string(),
                1 => format!("{}{}", usize::MAX, rng.below(10)),
                _ => "9".repeat(21 + rng.usize(60)),
            };
            (format!("{}{}x^{}", s, n, over), T::DegreeCouldNotBeParsed)
        }
        7 => (
            match rng.below(3) {
                0 => format!("{}{}x^{}.{}", s, n, d, nn),
                1 => format!("{}{}x^.{}", s, n, d),
                _ => format!("{}{}x^{}.", s, n, d),
            },
            T::DegreeCouldNotBeParsed,
        ),
        8 => {
            // A coefficient which is no number.
            let t = match rng.below(4) {
                0 => ".".to_string(),
                1 => format!("{}.{}.{}", nn, d, nn),
                2 => "..".to_string(),
                _ => format!("{}..{}", nn, d),
            };
            let tail = *rng.pick(&["", "x", "x^2", "x^7"]);
            (format!("{}{}{}", s, t, tail), T::CoeffCouldNotBeParsed)
        }
        9 if !N::FLOAT => {
            // A coefficient which does not fit.
            let tail = *rng.pick(&["", "x", "x^2", "x^7"]);
            let big = match rng.below(3) {
                0 => {
                    // One more than the largest (or one less than the smallest).
                    let m = N::max_v().dy().unwrap().add(&Dy::one());
                    let neg = N::min_v().dy().unwrap().sub(&Dy::one());
                    if N::SIGNED && rng.bool() {
                        return (format!("{}{}", neg.m, tail), T::CoeffCouldNotBeParsed);
                    }
                    m.m.to_string()
                }
                1 => format!("{}{}", N::max_v(), rng.below(10)),
                _ => "9".repeat(41 + rng.usize(40)),
            };
            (format!("+{}{}", big, tail), T::CoeffCouldNotBeParsed)
        }
        10 if !N::FLOAT => {
            let tail = *rng.pick(&["", "x", "x^2", "x^7"]);
            (format!("{}{}.{}{}", s, nn, d, tail), T::CoeffCouldNotBeParsed)
        }
        11 if !N::SIGNED => {
            let tail = *rng.pick(&["", "x", "x^2", "x^7"]);
            let body = if tail.is_empty() || rng.bool() { nn } else { String::new() };
            (format!("-{}{}", body, tail), T::CoeffCouldNotBeParsed)
        }
        _ => {
            // A sign without a term.
            let sg = if N::SIGNED && rng.bool() { "-" } else { "+" };
            (sg.to_string(), T::CoeffCouldNotBeParsed)
        }
    }
}

fn faults<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FromStr<Err = E>,
    SparsePolynomial<N>: FromStr<Err = E>,
    LinearBinomial<N>: FromStr<Err = E>,
    QuadraticTrinomial<N>: FromStr<Err = E>,
    Monomial<N>: FromStr<Err = E>,
    Term<N>: FromStr<Err = T>,
{
    let (bad, kind) = fault::<N>(&mut ctx.rng);
    let want = [E::TermFromString(kind)];
    // Well-formed terms around it.
    let put = |ctx: &mut Ctx, d: &mut dyn FnMut(&mut Rng) -> usize| -> String {
        let (n, m) = (ctx.rng.usize(4), ctx.rng.usize(3));
        let l = *ctx.rng.pick(&[0u64, 0, 25]);
        let mut s = String::new();
        let pre: Vec<_> = text::terms::<N>(&mut ctx.rng, n, d).0;
        for t in &pre {
            if may_overflow::<N>(&format!("{}{}", s, t.plain())) {
                continue;
            }
            s.push_str(&noisy(&mut ctx.rng, t, l));
        }
        if !s.is_empty() && !bad.starts_with(['+', '-']) {
            s.push('+');
        }
        s.push_str(&bad);
        for mut t in text::terms::<N>(&mut ctx.rng, m, d).0 {
            if t.sign.is_none() {
                t.sign = Some('+');
            }
            s.push_str(&noisy(&mut ctx.rng, &t, l));
        }
        s
    };
    let s = put(ctx, &mut |r| r.usize(40));
    ctx.distinct(hash_bytes(s.as_bytes()) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {:?} ({:?})", N::NAME, s, kind));
    rejects::<N, Polynomial<N>>(ctx, &s, &want);
    rejects::<N, SparsePolynomial<N>>(ctx, &s, &want);
    let s2 = put(ctx, &mut |r| r.usize(2));
    rejects::<N, LinearBinomial<N>>(ctx, &s2, &want);
    rejects::<N, QuadraticTrinomial<N>>(ctx, &s2, &want);
    let s3 = put(ctx, &mut |r| r.usize(3));
    rejects::<N, QuadraticTrinomial<N>>(ctx, &s3, &want);
    let s4 = put(ctx, &mut |_| 5);
    rejects::<N, Monomial<N>>(ctx, &s4, &want);
    // Alone, as a term.
    let inner = bad.trim_start_matches(['+', '-']);
    if !inner.contains(['+', '-']) {
        if let Some(r) = ctx.op("Term::from_str", || Term::<N>::from_str(&bad)) {
            ctx.check(r == Err(kind), || format!("Term::<{}>::from_str({:?}): got {:?}, expected {:?}", N::NAME, bad, r, kind));
        }
    }
    // What the message says.
    if let Some(text) = ctx.op("TermFromStringError.to_string", || kind.to_string()) {
        let kinds = [T::MoreThanOneX, T::CoeffCouldNotBeParsed, T::CaretWithoutXInFront, T::CaretWithoutDegree, T::MultipleCarets, T::DegreeCouldNotBeParsed];
        let ok = match kind {
            T::UnexpectedChar(c) => text.contains(c),
            _ => kinds.iter().all(|k| *k == kind || k.to_string() != text),
        };
        ctx.check(ok && !text.is_empty(), || format!("the message of {:?} is {:?}", kind, text));
    }
    // Nothing at all.
    rejects::<N, Polynomial<N>>(ctx, "", &[E::NoTermsFound]);
    rejects::<N, SparsePolynomial<N>>(ctx, "", &[E::NoTermsFound]);
    rejects::<N, Monomial<N>>(ctx, "", &[E::NoTermsFound]);
    rejects::<N, LinearBinomial<N>>(ctx, "", &[E::NoTermsFound]);
    rejects::<N, QuadraticTrinomial<N>>(ctx, "", &[E::NoTermsFound]);
}

/// Terms the target type can not hold.
fn misfit<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FromStr<Err = E>,
    LinearBinomial<N>: FromStr<Err = E>,
    QuadraticTrinomial<N>: FromStr<Err = E>,
    Monomial<N>: FromStr<Err = E>,
{
    let c = loop {
        let c = coef::<N>(&mut ctx.rng, 7, 0);
        if !c.is_zero() {
            break c;
        }
    };
    let l = *ctx.rng.pick(&[0u64, 0, 25]);
    let n = ctx.rng.usize(3);
    let mk = |ctx: &mut Ctx, low: &mut dyn FnMut(&mut Rng) -> usize, d: usize| -> String {
        let pre = text::terms::<N>(&mut ctx.rng, n, low).0;
        let mut s = String::new();
        for t in &pre {
            if may_overflow::<N>(&format!("{}{}", s, t.plain())) {
                continue;
            }
            s.push_str(&noisy(&mut ctx.rng, t, l));
        }
        let mut t = text::term::<N>(&mut ctx.rng, &c, d, s.is_empty()).unwrap();
        if !s.is_empty() && t.sign.is_none() {
            t.sign = Some('+');
        }
        s.push_str(&noisy(&mut ctx.rng, &t, l));
        if ctx.rng.chance(30) {
            s.push_str("+1");
        }
        s
    };
    let d = 2 + degree(&mut ctx.rng, usize::MAX - 2);
    let s = mk(ctx, &mut |r| r.usize(2), d);
    rejects::<N, LinearBinomial<N>>(ctx, &s, &[E::AddingTerm(A::DegreeOutOfBounds)]);
    let d = 3 + degree(&mut ctx.rng, usize::MAX - 3);
    let s = mk(ctx, &mut |r| r.usize(3), d);
    rejects::<N, QuadraticTrinomial<N>>(ctx, &s, &[E::AddingTerm(A::DegreeOutOfBounds)]);
    // A second degree in a monomial.
    let a = degree(&mut ctx.rng, usize::MAX);
    let b = loop {
        let b = degree(&mut ctx.rng, usize::MAX);
        if b != a {
            break b;
        }
    };
    let (t1, t2) = (text::term::<N>(&mut ctx.rng, &c, a, true).unwrap(), text::term::<N>(&mut ctx.rng, &c, b, false).unwrap());
    let s1 = format!("{}{}", noisy(&mut ctx.rng, &t1, l), noisy(&mut ctx.rng, &t2, l));
    rejects::<N, Monomial<N>>(ctx, &s1, &[E::AddingTerm(A::TooManyTerms)]);
    // Degrees for which a dense polynomial has no memory.
    let d = match ctx.rng.below(6) {
        0 => usize::MAX,
        1 => usize::MAX - 1 - ctx.rng.usize(3),
        2 => (usize::MAX / std::mem::size_of::<N>()).saturating_sub(1).saturating_add(ctx.rng.usize(3)),
        3 => isize::MAX as usize / std::mem::size_of::<N>() - 2 + ctx.rng.usize(4),
        4 => MEMORY / std::mem::size_of::<N>() + ctx.rng.usize(2),
        _ => (MEMORY << ctx.rng.usize(30)) + ctx.rng.usize(9),
    };
    let s2 = mk(ctx, &mut |r| r.usize(20), d);
    rejects::<N, Polynomial<N>>(ctx, &s2, &[E::AddingTerm(A::DegreeOutOfBounds)]);
    ctx.distinct(hash_bytes(s.as_bytes()) ^ hash_bytes(s2.as_bytes()).rotate_left(5) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {:?}, {:?} and {:?}", N::NAME, s, s1, s2));
}

fn judge_soup<N: Coef, P: PolyT<N> + FromStr<Err = E>>(ctx: &mut Ctx, s: &str) {
    let name = format!("{}::from_str", P::T);
    let Some(r) = ctx.op(&name, || with_limit(MEMORY, || P::from_str(s))) else {
        ctx.fail(format!("{}<{}> of {:.300}", name, N::NAME, format!("{:?}", s)));
        return;
    };
    match (read::<N>(s), r) {
        (Meaning::Bad, Ok(p)) => ctx.fail(format!("{}<{}> of {:.300}: got {:.200}, but it is malformed", name, N::NAME, format!("{:?}", s), format!("{:?}", p))),
        (Meaning::Bad, Err(_)) => {
            ctx.bump("malformed texts rejected");
            ctx.bump("oracle comparisons");
        }
        (Meaning::Terms(t), Ok(p)) => {
            ctx.bump("well-formed texts accepted");
            // Float sums depend on the order.
            let once = {
                let mut d: Vec<usize> = t.iter().map(|t| t.1).collect();
                d.sort_unstable();
                d.windows(2).all(|w| w[0] != w[1])
            };
            if once || !N::FLOAT {
                if let Ok(v) = from_terms(&t) {
                    same(ctx, &format!("{} of {:?}", name, s), Some(p), &v);
                }
            }
        }
        (Meaning::Terms(_), Err(E::AddingTerm(_))) => ctx.bump("well-formed texts which do not fit"),
        (Meaning::Terms(t), Err(e)) => ctx.fail(format!("{}<{}> of {:.300}: {:?}, but it is well-formed ({:?})", name, N::NAME, format!("{:?}", s), e, t)),
        (Meaning::Unspecified, _) => ctx.bump("unspecified texts survived"),
    }
}

/// Random texts over a hostile alphabet.
fn soup<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FromStr<Err = E>,
    SparsePolynomial<N>: FromStr<Err = E>,
    LinearBinomial<N>: FromStr<Err = E>,
    QuadraticTrinomial<N>: FromStr<Err = E>,
    Monomial<N>: FromStr<Err = E>,
    Term<N>: FromStr<Err = T>,
{
    let n = match ctx.rng.below(8) {
        0 => ctx.rng.usize(4),
        1 => ctx.rng.usize(60),
        _ => 1 + ctx.rng.usize(12),
    };
    let style = ctx.rng.below(6);
    let mut s = String::new();
    if style < 2 {
        // A well-formed text, damaged at a few places.
        let m = 1 + ctx.rng.usize(4);
        let (t, _) = text::terms::<N>(&mut ctx.rng, m, &mut |r| r.usize(30));
        let mut c: Vec<char> = t.iter().flat_map(|t| t.plain().chars().collect::<Vec<_>>()).collect();
        for _ in 0..ctx.rng.usize(4) {
            let k = ctx.rng.usize(c.len() + 1);
            match ctx.rng.below(4) {
                0 if k < c.len() => {
                    c.remove(k);
                }
                1 if k + 1 < c.len() => c.swap(k, k + 1),
                2 if k < c.len() => {
                    let x = c[k];
                    c.insert(k, x);
                }
                _ => {
                    let x = *ctx.rng.pick(&['x', '^', '+', '-', '.', ' ', ',', '_', '0', '9', 'é', '\t']);
                    c.insert(k, x);
                }
            }
        }
        s = c.into_iter().collect();
    } else {
        for _ in 0..n {
            let c = match style {
                2 => *ctx.rng.pick(&['x', '^', '+', '-', '1', '0', '2']),
                3 => *ctx.rng.pick(&['x', '^', '+', '-', '.', ' ', ',', '_', '0', '1', '9']),
                4 => *ctx.rng.pick(&['x', '^', '3', '+', '-', 'é', '漢', '\u{301}', '\u{2028}', '\t', '\n', '\u{a0}', '😀', '\u{0}']),
                _ => {
                    if ctx.rng.bool() {
                        odd_char(&mut ctx.rng)
                    } else {
                        *ctx.rng.pick(&['x', '^', '+', '-', '5', ' '])
                    }
                }
            };
            s.push(c);
        }
    }
    if may_overflow::<N>(&s) {
        return;
    }
    if !s.is_empty() {
        ctx.distinct(hash_bytes(s.as_bytes()) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {:?}", N::NAME, s));
    judge_soup::<N, SparsePolynomial<N>>(ctx, &s);
    judge_soup::<N, Polynomial<N>>(ctx, &s);
    judge_soup::<N, LinearBinomial<N>>(ctx, &s);
    judge_soup::<N, QuadraticTrinomial<N>>(ctx, &s);
    judge_soup::<N, Monomial<N>>(ctx, &s);
    if let Some(r) = ctx.op("Term::from_str", || Term::<N>::from_str(&s)) {
        let inner = s.trim_start_matches(' ').trim_start_matches(['+', '-']);
        // Signs inside of a single term are not specified.
        if !inner.contains(['+', '-']) && s.trim_start_matches(' ').len() <= inner.len() + 1 {
            match (read::<N>(&s), &r) {
                (Meaning::Bad, Ok(_)) => ctx.fail(format!("Term::<{}>::from_str({:?}): got {:?}, but it is malformed", N::NAME, s, r)),
                (Meaning::Terms(t), _) => {
                    let w = t.first().map(|t| if t.0.is_zero() { Term::ZeroTerm } else { Term::Term(t.0, t.1) });
                    ctx.check(r.as_ref().ok() == w.as_ref(), || format!("Term::<{}>::from_str({:?}): got {:?}, expected {:?}", N::NAME, s, r, w));
                }
                _ => {}
            }
        }
    }
}

/// Very long texts.
fn long(ctx: &mut Ctx) {
    let n = 10_000 + ctx.rng.usize(200_000);
    let kind = ctx.rng.below(10);
    let (s, want): (String, Option<E>) = match kind {
        0 => ("x".repeat(n), Some(E::TermFromString(T::MoreThanOneX))),
        1 => ("9".repeat(n), Some(E::TermFromString(T::CoeffCouldNotBeParsed))),
        2 => (format!("x^{}", "9".repeat(n)), Some(E::TermFromString(T::DegreeCouldNotBeParsed))),
        3 => ("+".repeat(n), Some(E::TermFromString(T::CoeffCouldNotBeParsed))),
        4 => (format!("x{}", "^".repeat(n)), Some(E::TermFromString(T::MultipleCarets))),
        5 => (format!("{}y", " ".repeat(n)), Some(E::TermFromString(T::UnexpectedChar('y')))),
        6 => (format!("{}5x^3{}", " ".repeat(n), " ".repeat(n)), None),
        7 => (format!("{}7x^{}3", "0".repeat(n), "0".repeat(n)), None),
        8 => (format!("1{}x^2", "_".repeat(n)), None),
        _ => (format!("x^2{}", "+x^3-x^3".repeat(n / 8)), None),
    };
    let h = mix(n as u64) ^ kind;
    ctx.distinct(h);
    ctx.max("length of a text", s.len() as u64);
    ctx.sample(|| format!("kind {} with {} characters", kind, s.len()));
    match want {
        Some(e) => {
            rejects::<i64, Polynomial<i64>>(ctx, &s, &[e]);
            rejects::<i64, SparsePolynomial<i64>>(ctx, &s, &[e]);
            rejects::<u8, Monomial<u8>>(ctx, &s, &[e]);
        }
        None => {
            let v = match kind {
                6 => MP::term(Dy::int(5), 3),
                7 => MP::term(Dy::int(7), 3),
                _ => MP::term(Dy::one(), 2),
            };
            for r in [ctx.op("Polynomial::from_str", || with_limit(MEMORY, || Polynomial::<i64>::from_str(&s)))] {
                if let Some(r) = r {
                    match r {
                        Ok(p) => same(ctx, "a long text", Some(p), &v),
                        // A separator which is not between digits is not specified.
                        Err(e) => ctx.check(kind == 8, || format!("kind {}: {:?}", kind, e)),
                    }
                }
            }
            if let Some(r) = ctx.op("SparsePolynomial::from_str", || with_limit(MEMORY, || SparsePolynomial::<f64>::from_str(&s))) {
                match r {
                    Ok(p) => same(ctx, "a long text", Some(p), &v),
                    Err(e) => ctx.check(kind == 8, || format!("kind {}: {:?}", kind, e)),
                }
            }
        }
    }
}

/// Every character there is, at every place in a term.
fn chars(ctx: &mut Ctx) {
    let block = ctx.index as u32 * 0x1000;
    let mut n = 0u64;
    for c in (block..block + 0x1000).filter_map(char::from_u32) {
        if c.is_whitespace() || matches!(c, '0'..='9' | 'x' | '^' | '+' | '-' | '.' | ',' | '_') {
            continue;
        }
        let e = T::UnexpectedChar(c);
        for s in [format!("{}", c), format!("3{}x^2", c), format!("3x{}^2", c), format!("3x^{}2", c), format!("3x^2{}", c), format!("3x^2 + {}x", c)] {
            let r = guarded(|| (s.parse::<Polynomial<i64>>().err(), s.parse::<SparsePolynomial<f64>>().err(), s.parse::<QuadraticTrinomial<u8>>().err()));
            n += 3;
            let want = Some(E::TermFromString(e.clone()));
            let ok = matches!(&r, Ok((a, b, c)) if *a == want && *b == want && *c == want);
            ctx.check(ok, || format!("{:?}: got {:?}, expected {:?}", s, r, want));
        }
        ctx.bump("characters");
    }
    ctx.add("texts with one unknown character", n);
    ctx.distinct(mix(u64::from(block)));
    ctx.sample(|| format!("characters from U+{:04X}", block));
}

fn s_faults(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, faults(ctx));
}
fn s_misfit(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, misfit(ctx));
}
fn s_soup(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, soup(ctx));
}

fn main() {
    run::main(Spec {
        id: "C08",
        rule: "Texts with exactly one fault (of every kind, at any position among well-formed terms) must give the error naming it; texts whose terms do not fit the type must say so; random and damaged texts over hostile alphabets are judged by an independent reader (malformed: an error; well-formed: the value; otherwise: no panic). Allocations above 64 MiB are refused meanwhile, so that running out of memory is observed. Non-trivial: every non-empty text; distinct by text and coefficient type.",
        assumptions: &[
            "Sums of coefficients of one degree are in range (an overflowing sum panics, as integer overflow does in Rust).",
            "Not settled by the documentation, hence only judged for not panicking: digits directly after x, separators other than between digits, whitespace other than spaces, signs inside of a single term, -0 for unsigned types.",
        ],
        sections: vec![
            Section { name: "faults", quick: 70_000, thorough: 2_100_000, f: s_faults },
            Section { name: "chars", quick: 272, thorough: 272, f: chars },
            Section { name: "misfit", quick: 28_000, thorough: 700_000, f: s_misfit },
            Section { name: "soup", quick: 140_000, thorough: 5_600_000, f: s_soup },
            Section { name: "long", quick: 200, thorough: 4_000, f: long },
        ],
        known: vec![],
    })
}
