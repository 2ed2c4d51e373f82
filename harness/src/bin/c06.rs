//! C06: construction and term-by-term mutation track the intended value.
use rustnomial::{
    polynomial, FreeSizePolynomial, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial,
    SparsePolynomial, TryAddError,
};
use std::collections::BTreeMap;
use vh::alloc::with_limit;
use vh::rng::{hash_bytes, mix};
use vh::sink::{reasons, Op};
use vh::*;

fn step_degree(rng: &mut Rng, ty: &str, v: &MP) -> usize {
    match ty {
        "Polynomial" => match rng.below(20) {
            0 => usize::MAX - rng.usize(3),
            1 => (1usize << (40 + rng.usize(24))) - rng.usize(3),
            2 => rng.usize(700),
            3 => v.degree().map_or(0, |d| d + 1 + rng.usize(3)),
            4 => v.degree().map_or(0, |d| d.saturating_sub(rng.usize(3))),
            _ => rng.usize(9),
        },
        "SparsePolynomial" => match rng.below(4) {
            0 => degree(rng, usize::MAX),
            1 => usize::MAX - rng.usize(2),
            _ => rng.usize(6),
        },
        "Monomial" => match (rng.below(4), v.degree()) {
            (0, _) => degree(rng, usize::MAX),
            (1, _) => rng.usize(4),
            (_, Some(d)) => d,
            _ => rng.usize(9),
        },
        _ => match rng.below(6) {
            0 => degree(rng, usize::MAX),
            1 => 3,
            _ => rng.usize(4),
        },
    }
}

fn history<N: Coef, P>(ctx: &mut Ctx, trim: fn(&mut P), leading: fn(&P) -> bool, grow: Option<fn(&mut P, N, usize)>)
where
    P: PolyT<N> + SizedPolynomial<N> + MutablePolynomial<N>,
{
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let s = scale_of::<N>(&mut ctx.rng);
    let (mut p, mut v);
    if ctx.rng.chance(30) {
        v = MP::zero();
        p = P::zero();
    } else {
        let n = match P::T {
            "LinearBinomial" => 2,
            "QuadraticTrinomial" => 3,
            _ => ctx.rng.usize(12),
        };
        v = gen_dense::<N>(&mut ctx.rng, n, bits, s);
        if P::T == "Monomial" {
            let c = coef::<N>(&mut ctx.rng, bits, s);
            let d = degree(&mut ctx.rng, usize::MAX);
            v = MP::term(c, d);
        }
        p = P::build(&v, &mut ctx.rng).unwrap();
    }
    let long = ctx.rng.chance(3);
    let steps = if long { 40 + ctx.rng.usize(260) } else { 1 + ctx.rng.usize(24) };
    let mut h = v.hash();
    let mut log = format!("{:?}", p);
    let mut changes = 0;
    for _ in 0..steps {
        let k = ctx.rng.below(20);
        if k == 0 && !(long && ctx.rng.chance(90)) {
            ctx.op("set_to_zero", || p.set_to_zero());
            v = MP::zero();
            log.push_str("; set_to_zero");
        } else if k <= 2 {
            ctx.op("trim", || trim(&mut p));
            log.push_str("; trim");
            ctx.check(!leading(&p), || format!("{}<{}>: leading zeros stored after {:.600}", P::T, N::NAME, log));
        } else if k == 3 {
            let q = p.clone();
            ctx.check(q.val() == p.val(), || "clone has another value".to_string());
            p = q;
        } else {
            let op = if ctx.rng.chance(55) { Op::Add } else { Op::Sub };
            let d = match P::T {
                // Many terms, most of them more than once.
                "Polynomial" | "SparsePolynomial" if long && ctx.rng.chance(80) => ctx.rng.usize(110) * if P::T == "Polynomial" { 1 } else { 1 << 40 },
                _ => step_degree(&mut ctx.rng, P::T, &v),
            };
            let cur = v.get(d);
            // Cancel exactly every now and then.
            let c = if ctx.rng.chance(30) && !cur.is_zero() {
                match op {
                    Op::Sub => cur.clone(),
                    Op::Add if N::SIGNED => cur.neg(),
                    Op::Add => cur.clone(),
                }
            } else {
                coef::<N>(&mut ctx.rng, bits, s)
            };
            let mut w = v.clone();
            w.add_term(&if op == Op::Sub { c.neg() } else { c.clone() }, d);
            let huge = d >= 1 << 36;
            let Some(cn) = N::from_dy(&c) else { continue };
            let fits = N::from_dy(&w.get(d)).is_some();
            let r = reasons::<N>(P::T, &v, op, &c, d, !huge);
            let must_fail = r.as_ref().map_or(false, |r| !r.is_empty());
            // Coefficients out of range are not specified.
            if !fits && !must_fail {
                continue;
            }
            h = mix(h ^ d as u64) ^ MP::constant(c.clone()).hash() ^ op as u64;
            log.push_str(&format!("; {:?} {:?}x^{}", op, cn, d));
            if let (Op::Add, Some(g), false, true) = (op, grow, huge, ctx.rng.chance(40)) {
                ctx.op("add_term", || g(&mut p, cn, d));
                v = w;
                changes += 1;
            } else {
                let before = format!("{:?}", p);
                let got = match op {
                    Op::Add => ctx.op("try_add_term", || p.try_add_term(cn, d)),
                    Op::Sub => ctx.op("try_sub_term", || p.try_sub_term(cn, d)),
                };
                let Some(got) = got else {
                    ctx.fail(format!("{}<{}>: {:.600}", P::T, N::NAME, log));
                    return;
                };
                match (&got, &r) {
                    (Ok(()), None) => {}
                    (Err(_), None) => {}
                    (Ok(()), Some(r)) if r.is_empty() => {
                        v = w;
                        changes += 1;
                    }
                    (Err(e), Some(r)) if r.contains(e) => {
                        ctx.bump(&format!("{:?} observed", e));
                        let same = p.val().ok() == Some(v.clone());
                        ctx.check(same, || format!("{}<{}>: {:.300} became {:.300} by a failing {:?} of {:?}x^{}", P::T, N::NAME, before, format!("{:?}", p), op, cn, d));
                    }
                    _ => {
                        ctx.fail(format!("{}<{}>: {:?} of {:?}x^{} on {:.300} gave {:?}, expected {:?} (empty: success)", P::T, N::NAME, op, cn, d, before, got, r));
                        return;
                    }
                }
            }
        }
        ctx.bump("oracle comparisons");
        match p.val() {
            Ok(x) if x == v => {}
            Ok(x) => {
                ctx.fail(format!("{}<{}>: after {:.900} the value is {}, expected {}", P::T, N::NAME, log, x.show(), v.show()));
                return;
            }
            Err(e) => {
                ctx.fail(e);
                return;
            }
        }
    }
    if changes >= 2 {
        ctx.distinct(h ^ hash_bytes(N::NAME.as_bytes()) ^ hash_bytes(P::T.as_bytes()));
    }
    ctx.sample(|| format!("{}<{}>: {}", P::T, N::NAME, log));
}

fn mutate<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: MutablePolynomial<N> + FreeSizePolynomial<N>,
    SparsePolynomial<N>: MutablePolynomial<N> + FreeSizePolynomial<N>,
    Monomial<N>: MutablePolynomial<N>,
    LinearBinomial<N>: MutablePolynomial<N>,
    QuadraticTrinomial<N>: MutablePolynomial<N>,
{
    match ctx.index / 14 % 7 {
        0..=1 => history::<N, Polynomial<N>>(
            ctx,
            |p| p.trim(),
            |p| p.terms.first().map_or(false, |c| c.is_zero()),
            Some(|p, c, d| p.add_term(c, d)),
        ),
        2..=3 => history::<N, SparsePolynomial<N>>(ctx, |_| {}, |_| false, Some(|p, c, d| p.add_term(c, d))),
        4 => history::<N, Monomial<N>>(ctx, |_| {}, |_| false, None),
        5 => history::<N, LinearBinomial<N>>(ctx, |_| {}, |_| false, None),
        _ => history::<N, QuadraticTrinomial<N>>(ctx, |_| {}, |_| false, None),
    }
}

/// Growing a dense polynomial while memory is short.
fn memory<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: MutablePolynomial<N>,
{
    let n = ctx.rng.usize(40);
    let mut v = gen_dense::<N>(&mut ctx.rng, n, N::BITS, 0);
    let mut p = dense::<N>(&v, &mut ctx.rng);
    let size = std::mem::size_of::<N>();
    let limit = 1usize << (11 + ctx.rng.usize(9));
    ctx.distinct(v.hash() ^ mix(limit as u64) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {} with requests above {} bytes refused", N::NAME, v.show(), limit));
    let mut refused = 0u64;
    let mut grown = 0u64;
    for _ in 0..12 {
        let d = match ctx.rng.below(6) {
            0 => usize::MAX - ctx.rng.usize(3),
            1 => usize::MAX / size - ctx.rng.usize(3),
            2 => isize::MAX as usize / size - 1 + ctx.rng.usize(3),
            3 => limit / size + ctx.rng.usize(3),
            4 => (limit / size).saturating_sub(ctx.rng.usize(40)),
            _ => ctx.rng.usize(limit / size * 2),
        };
        let op = if ctx.rng.chance(60) || !N::SIGNED { Op::Add } else { Op::Sub };
        let c = N::one();
        let mut w = v.clone();
        w.add_term(&if op == Op::Sub { Dy::int(-1) } else { Dy::one() }, d);
        if N::from_dy(&w.get(d)).is_none() {
            continue;
        }
        let grows = d >= p.terms.len();
        let need = (d as u128 + 1) * size as u128;
        let cap = (p.terms.capacity() * size) as u128;
        // Growing needs at least `need` bytes; twice as many (or twice the capacity) are room enough.
        let must_fail = grows && need > cap && need > limit as u128;
        let must_work = !grows || 2 * need.max(cap) + 256 <= limit as u128;
        let got = with_limit(limit, || match op {
            Op::Add => run::guarded(|| p.try_add_term(c, d)),
            Op::Sub => run::guarded(|| p.try_sub_term(c, d)),
        });
        ctx.bump("growth attempts");
        match got {
            Err(m) => {
                ctx.fail(format!("Polynomial<{}>: {:?} of x^{} with requests above {} bytes refused panicked: {}", N::NAME, op, d, limit, m));
                return;
            }
            Ok(Ok(())) => {
                ctx.check(!must_fail, || format!("Polynomial<{}>: {:?} of x^{} succeeded without memory for it", N::NAME, op, d));
                v = w;
                grown += 1;
            }
            Ok(Err(e)) => {
                ctx.check(!must_work && e == TryAddError::DegreeOutOfBounds, || {
                    format!("Polynomial<{}>: {:?} of x^{} (stored {} of {}) with requests above {} bytes refused: {:?}", N::NAME, op, d, p.terms.len(), p.terms.capacity(), limit, e)
                });
                refused += 1;
            }
        }
        ctx.bump("oracle comparisons");
        match p.val() {
            Ok(x) if x == v => {}
            _ => {
                ctx.fail(format!("Polynomial<{}>: the value is wrong after {:?} of x^{} with requests above {} bytes refused", N::NAME, op, d, limit));
                return;
            }
        }
    }
    ctx.add("growth refused", refused);
    ctx.add("growth allowed", grown);
}

/// Constructors.
fn construct<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: FreeSizePolynomial<N>,
    SparsePolynomial<N>: FreeSizePolynomial<N>,
{
    // Coefficient lists, with leading zeros around the boundaries of blocks of four.
    let n = length(&mut ctx.rng, 700);
    let s = scale_of::<N>(&mut ctx.rng);
    let mut v = gen_dense::<N>(&mut ctx.rng, n, N::BITS, s);
    if ctx.rng.chance(20) {
        v = v.shr(v.degree().unwrap_or(0).saturating_sub(1));
    }
    let pad = match ctx.rng.below(3) {
        0 => 0,
        1 => ctx.rng.usize(20),
        _ if ctx.rng.chance(1) => 65_530 + ctx.rng.usize(12),
        _ => padding(&mut ctx.rng),
    };
    let list: Vec<N> = coeffs(&v, pad, &mut ctx.rng);
    if !v.is_zero() {
        ctx.distinct(v.hash() ^ mix(pad as u64) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {} zeros, then {}", N::NAME, pad, v.show()));
    let what = format!("{} leading zeros and {}", pad, v.show());
    let r = ctx.op("Polynomial::new", || Polynomial::new(roomy(&list)));
    same(ctx, &what, r, &v);
    let r = ctx.op("Polynomial::from(Vec)", || Polynomial::from(roomy(&list)));
    same(ctx, &what, r, &v);
    let r = ctx.op("SparsePolynomial::from(Vec)", || SparsePolynomial::from(roomy(&list)));
    same(ctx, &what, r, &v);
    let r = ctx.op("SparsePolynomial::new", || SparsePolynomial::new(v.t.iter().map(|(d, c)| (*d, nz::<N>(c))).collect::<BTreeMap<_, _>>()));
    same(ctx, &what, r, &v);
    let mut p = Polynomial { terms: roomy(&list) };
    ctx.op("trim", || p.trim());
    ctx.check(p.terms.first().map_or(true, |c| !c.is_zero()), || format!("trim left leading zeros: {}", what));
    same(ctx, "trim", Some(p.clone()), &v);
    let again = p.terms.clone();
    ctx.op("trim", || p.trim());
    ctx.check(p.terms == again, || format!("a second trim changed something: {}", what));

    // Macros and fixed-size constructors.
    let c: Vec<N> = (0..5).map(|_| if ctx.rng.chance(30) { N::some_zero(&mut ctx.rng) } else { any_coef::<N>(&mut ctx.rng) }).collect();
    let value = |c: &[N]| {
        let mut m = MP::zero();
        for (i, x) in c.iter().enumerate() {
            m.add_term(&x.dy().unwrap(), c.len() - 1 - i);
        }
        m
    };
    let r = ctx.op("polynomial!", || polynomial![c[0], c[1], c[2], c[3], c[4]]);
    same(ctx, "polynomial!", r, &value(&c));
    let r = ctx.op("polynomial!", || polynomial![c[0], c[1]]);
    same(ctx, "polynomial!", r, &value(&c[..2]));
    let r = ctx.op("LinearBinomial::new", || LinearBinomial::new([c[0], c[1]]));
    same(ctx, "LinearBinomial::new", r, &value(&c[..2]));
    let r = ctx.op("QuadraticTrinomial::new", || QuadraticTrinomial::new([c[0], c[1], c[2]]));
    same(ctx, "QuadraticTrinomial::new", r, &value(&c[..3]));
    let d = degree(&mut ctx.rng, usize::MAX);
    let r = ctx.op("Monomial::new", || Monomial::new(c[0], d));
    same(ctx, "Monomial::new", r, &MP::term(c[0].dy().unwrap(), d));
    let r = ctx.op("Monomial::from(N)", || Monomial::from(c[0]));
    same(ctx, "Monomial::from(N)", r, &MP::constant(c[0].dy().unwrap()));
    same::<N, Monomial<N>>(ctx, "zero", Some(Monomial::zero()), &MP::zero());
    same::<N, LinearBinomial<N>>(ctx, "zero", Some(LinearBinomial::zero()), &MP::zero());
    same::<N, QuadraticTrinomial<N>>(ctx, "zero", Some(QuadraticTrinomial::zero()), &MP::zero());
    same::<N, Polynomial<N>>(ctx, "zero", Some(Polynomial::zero()), &MP::zero());
    same::<N, SparsePolynomial<N>>(ctx, "zero", Some(SparsePolynomial::zero()), &MP::zero());

    // Lists of terms in any order, with repeats.
    let small = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let bits = small.saturating_sub(3).max(1);
    let top = *ctx.rng.pick(&[1usize, 3, 9, 60, 400]);
    let k = if ctx.rng.chance(5) { 30 + ctx.rng.usize(300) } else { ctx.rng.usize(14) };
    let mut t: Vec<(N, usize)> = vec![];
    let mut w = MP::zero();
    for _ in 0..k {
        let d = ctx.rng.usize(top);
        let cur = w.get(d);
        let x = if ctx.rng.chance(20) && N::SIGNED { cur.neg() } else { coef::<N>(&mut ctx.rng, bits, s) };
        let mut w2 = w.clone();
        w2.add_term(&x, d);
        if let (Some(xn), true) = (N::from_dy(&x), representable::<N>(&w2)) {
            t.push((xn, d));
            w = w2;
        }
    }
    let what = format!("{:?}", t);
    let r = ctx.op("Polynomial::from_terms", || Polynomial::from_terms(&t));
    same(ctx, &what, r, &w);
    let r = ctx.op("SparsePolynomial::from_terms", || SparsePolynomial::from_terms(&t));
    same(ctx, &what, r, &w);
    let far: Vec<(N, usize)> = t.iter().map(|(c, d)| (*c, usize::MAX - d)).collect();
    let fw = MP { t: w.t.iter().map(|(d, c)| (usize::MAX - d, c.clone())).collect() };
    let r = ctx.op("SparsePolynomial::from_terms", || SparsePolynomial::from_terms(&far));
    same(ctx, &format!("{:?}", far), r, &fw);
}

/// Many terms at once.
fn long(ctx: &mut Ctx) {
    let most = 1usize << (7 + ctx.rng.usize(9));
    let k = ctx.rng.usize(most);
    let top = 1usize << ctx.rng.usize(17);
    let high = 1usize << ctx.rng.usize(17);
    let start = ctx.rng.usize(high);
    let t: Vec<(i64, usize)> = (0..k).map(|_| (ctx.rng.range(-1000, 1000), ctx.rng.usize(top))).collect();
    let high = 1usize << ctx.rng.usize(17);
    let zeros = ctx.rng.usize(high);
    ctx.distinct(mix(k as u64) ^ mix(top as u64 ^ (start as u64) << 32));
    ctx.sample(|| format!("i64: {} terms below degree {}", k, top));
    ctx.max("terms in one list", k as u64);
    let mut want = vec![0i64; top.max(start + 1)];
    for (c, d) in &t {
        want[*d] += c;
    }
    let dense = |p: &Polynomial<i64>| {
        let n = p.terms.len();
        (0..n.max(want.len())).find(|d| (if *d < n { p.terms[n - 1 - d] } else { 0 }) != want.get(*d).copied().unwrap_or(0))
    };
    let sparse = |p: &SparsePolynomial<i64>| {
        let high = p.terms.range(want.len()..).find(|(_, c)| **c != 0).map(|(d, _)| *d);
        high.or_else(|| (0..want.len()).find(|d| p.terms.get(d).copied().unwrap_or(0) != want[*d]))
    };
    let what = format!("{} terms below degree {}", k, top);
    let r = ctx.op("long Polynomial::from_terms", || Polynomial::from_terms(&t));
    let bad = r.as_ref().map(dense);
    ctx.check(bad == Some(None), || format!("Polynomial::from_terms, {}: wrong at {:?}", what, bad));
    let r = ctx.op("long SparsePolynomial::from_terms", || SparsePolynomial::from_terms(&t));
    let bad = r.as_ref().map(sparse);
    ctx.check(bad == Some(None), || format!("SparsePolynomial::from_terms, {}: wrong at {:?}", what, bad));
    let list: Vec<i64> = std::iter::repeat(0).take(zeros).chain(want.iter().rev().copied()).collect();
    let r = ctx.op("long Polynomial::new", || Polynomial::new(roomy(&list)));
    let bad = r.as_ref().map(dense);
    ctx.check(bad == Some(None), || format!("Polynomial::new, {} and {} zeros: wrong at {:?}", what, zeros, bad));
    let r = ctx.op("long SparsePolynomial::from(Vec)", || SparsePolynomial::from(roomy(&list)));
    let bad = r.as_ref().map(sparse);
    ctx.check(bad == Some(None), || format!("SparsePolynomial::from(Vec), {} and {} zeros: wrong at {:?}", what, zeros, bad));
    let mut p = Polynomial { terms: roomy(&list) };
    ctx.op("long trim", || p.trim());
    let bad = dense(&p);
    ctx.check(bad.is_none() && p.terms.first() != Some(&0), || format!("trim, {} and {} zeros: wrong at {:?}", what, zeros, bad));

    // One by one, from a value of some length; half of them as subtractions.
    let few = &t[..k.min(600)];
    want = vec![0i64; top.max(start + 1)];
    want[start] = 1_000_000;
    for (c, d) in few {
        want[*d] += c;
    }
    let mut p = Polynomial::<i64>::zero();
    let mut s = SparsePolynomial::<i64>::zero();
    let done = ctx.op("long history", || {
        let mut ok = p.try_add_term(1_000_000, start).is_ok() & s.try_add_term(1_000_000, start).is_ok();
        for (i, (c, d)) in few.iter().enumerate() {
            if *c == 0 {
                continue;
            }
            if i % 2 == 0 {
                ok &= p.try_add_term(*c, *d).is_ok() & s.try_add_term(*c, *d).is_ok();
            } else {
                ok &= p.try_sub_term(-*c, *d).is_ok() & s.try_sub_term(-*c, *d).is_ok();
            }
        }
        ok
    });
    ctx.check(done == Some(true), || format!("{} terms added one by one below degree {}: {:?}", few.len(), top, done));
    let n = p.terms.len();
    let bad = (0..n.max(want.len())).find(|d| (if *d < n { p.terms[n - 1 - d] } else { 0 }) != want.get(*d).copied().unwrap_or(0));
    ctx.check(bad.is_none(), || format!("Polynomial, {} terms one by one below degree {} from degree {}: wrong at {:?}", few.len(), top, start, bad));
    let high = s.terms.range(want.len()..).find(|(_, c)| **c != 0).map(|(d, _)| *d);
    let bad = high.or_else(|| (0..want.len()).find(|d| s.terms.get(d).copied().unwrap_or(0) != want[*d]));
    ctx.check(bad.is_none(), || format!("SparsePolynomial, {} terms one by one below degree {} from degree {}: wrong at {:?}", few.len(), top, start, bad));
}

fn s_mutate(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, mutate(ctx));
}
fn s_memory(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, memory(ctx));
}
fn s_construct(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, construct(ctx));
}

fn main() {
    run::main(Spec {
        id: "C06",
        rule: "Histories of up to 24 (some up to 300) additions and subtractions of terms, trims and resets are applied to a value of each type and to an abstract polynomial; after every step the stored value, and every returned result, are compared. Memory: requests above a limit are refused while a dense polynomial grows. Long: up to 2^15 terms or 2^17 coefficients at once. Non-trivial: at least two successful changes (construct: non-zero value; memory: every case); distinct by history and type.",
        assumptions: &[
            "A step is only taken if the new coefficient is in range; unsigned subtractions below zero from a non-zero coefficient (and from any coefficient of the fixed-size types) are not specified.",
            "Adding a zero term may succeed or fail; the value must not change.",
        ],
        sections: vec![
            Section { name: "history", quick: 98_000, thorough: 3_920_000, f: s_mutate },
            Section { name: "memory", quick: 14_000, thorough: 420_000, f: s_memory },
            Section { name: "construct", quick: 56_000, thorough: 1_960_000, f: s_construct },
            Section { name: "long", quick: 400, thorough: 12_000, f: long },
        ],
        known: vec![],
    })
}
