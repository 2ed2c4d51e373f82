//! C10: derivatives follow the power rule for every type and degree.
use rustnomial::{derivative, Derivable, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use vh::rng::hash_bytes;
use vh::*;

/// The largest degree up to which the type has every number.
fn limit<N: Coef>() -> u128 {
    if N::FLOAT {
        1 << N::BITS
    } else if N::BITS >= 64 {
        u128::from(u64::MAX)
    } else {
        (1 << N::BITS) - 1
    }
}

fn has<N: Coef>(k: usize) -> Option<N> {
    N::from_dy(&Dy::int(k as i128))
}

/// The derivative as the coefficient type computes it, or None if something is out of range.
fn expected<N: Coef>(p: &MP) -> Option<MP> {
    let mut d = MP::zero();
    for (k, c) in &p.t {
        if *k == 0 {
            continue;
        }
        let n = has::<N>(*k)?;
        let e = c.mul(&Dy::int(*k as i128));
        let v = if N::FLOAT { (nz::<N>(c) * n).dy()? } else { N::from_dy(&e)?.dy()? };
        d.add_term(&v, k - 1);
    }
    Some(d)
}

fn judge<N: Coef, P: PolyT<N> + Derivable<N>>(ctx: &mut Ctx, p: &P, want: &MP) -> Option<P> {
    let name = format!("{}.derivative", P::T);
    let before = p.clone();
    let Some(d) = ctx.op(&name, || p.derivative()) else {
        ctx.fail(format!("{}<{}> of {}", name, N::NAME, brief(p)));
        return None;
    };
    same(ctx, &format!("{} of {}", name, brief(p)), Some(d.clone()), want);
    ctx.check(before == *p, || format!("{} changed its operand {:?}", name, before));
    Some(d)
}

/// A coefficient whose product with the degree is in range.
fn coef_for<N: Coef>(rng: &mut Rng, k: usize) -> Dy {
    if k == 0 || rng.chance(5) {
        let c = any_coef::<N>(rng).dy().unwrap();
        if k <= 1 {
            return c;
        }
    }
    if N::FLOAT {
        return match rng.below(4) {
            0 => any_coef::<N>(rng).dy().unwrap(),
            _ => coef::<N>(rng, N::BITS, 0),
        };
    }
    let top = N::max_v().dy().unwrap().m / num::BigInt::from(k);
    let low = N::min_v().dy().unwrap().m / num::BigInt::from(k);
    match rng.below(6) {
        0 => Dy::big(top),
        1 => Dy::big(low),
        2 => Dy::one(),
        _ => {
            let bits = top.bits() as u32;
            coef::<N>(rng, bits.saturating_sub(1).max(1), 0)
        }
    }
}

/// Every type, degrees up to the largest which the coefficient type has.
fn power_rule<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Derivable<N>,
    SparsePolynomial<N>: Derivable<N>,
    Monomial<N>: Derivable<N>,
    LinearBinomial<N>: Derivable<N>,
    QuadraticTrinomial<N>: Derivable<N>,
{
    let cap = limit::<N>().min(3000) as usize;
    let n = match ctx.rng.below(6) {
        0 => ctx.rng.usize(3),
        1 => ctx.rng.usize(4),
        2 | 3 => 1 + ctx.rng.usize(12),
        4 => cap.min(300) + 1 - ctx.rng.usize(2),
        _ => length(&mut ctx.rng, cap + 1),
    }
    .min(cap + 1);
    let style = ctx.rng.below(4);
    let mut p = MP::zero();
    for k in 0..n {
        if style == 0 && k + 1 < n || style == 1 && ctx.rng.chance(50) {
            continue;
        }
        let c = coef_for::<N>(&mut ctx.rng, k);
        p.add_term(&c, k);
    }
    let Some(d) = expected::<N>(&p) else {
        ctx.bump("skipped: out of range");
        return;
    };
    ctx.max("degree of a dense polynomial", p.degree().unwrap_or(0) as u64);
    if p.degree().unwrap_or(0) > 0 {
        ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {}", N::NAME, p.show()));
    each_type!(ctx, N, &p, q, {
        if let Some(q1) = judge(ctx, &q, &d) {
            // Again, from the representation the first derivative left.
            if let Some(d2) = expected::<N>(&d) {
                judge(ctx, &q1, &d2);
            }
        }
    });
    // Zeros stored beyond the last degree the type has.
    if limit::<N>() < 1000 {
        let pad = limit::<N>() as usize + 3 - ctx.rng.usize(6) + ctx.rng.usize(50);
        let v = coeffs::<N>(&p, pad, &mut ctx.rng);
        judge(ctx, &Polynomial { terms: v }, &d);
    }
    let far = if N::BITS < 64 && !N::FLOAT { limit::<N>() as usize + 1 + ctx.rng.usize(9) } else { 3 * (1 << 30) + 1 };
    let mut s = sparse::<N>(&p, &mut ctx.rng);
    s.terms.insert(far, N::some_zero(&mut ctx.rng));
    if !p.t.contains_key(&far) {
        judge(ctx, &s, &d);
    }
    // Same value, other representations: dense and sparse agree (both were compared with the model).
    let (a, b, c) = (p.get(2), p.get(1), p.get(0));
    let (a, b, c): (N, N, N) = (nz(&a), nz(&b), nz(&c));
    let low = MP { t: p.t.range(0..3).map(|(k, c)| (*k, c.clone())).collect() };
    if let Some(w) = expected::<N>(&low) {
        let r = ctx.op("derivative!", || derivative!(a, b, c));
        same(ctx, "derivative!", r, &w);
    }
}

/// Few terms, any degree which the coefficient type has.
fn far<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: Derivable<N>,
    Monomial<N>: Derivable<N>,
{
    let n = 1 + ctx.rng.usize(5);
    let mut p = MP::zero();
    for _ in 0..n {
        let top = limit::<N>().min(u128::from(u64::MAX)) as usize;
        let mut k = match ctx.rng.below(5) {
            0 => top,
            1 => top - ctx.rng.usize(3),
            2 => (top / 2 + 2).saturating_sub(ctx.rng.usize(4)),
            3 if N::FLOAT => {
                // Beyond the last consecutive number.
                let b = ctx.rng.usize(64);
                (ctx.rng.u64() as usize | 1 << 63) >> (64 - N::BITS as usize) << b.min(64 - N::BITS as usize)
            }
            _ => degree(&mut ctx.rng, top),
        };
        while has::<N>(k).is_none() {
            k &= k - 1;
        }
        if p.t.contains_key(&k) {
            continue;
        }
        let c = coef_for::<N>(&mut ctx.rng, k);
        p.add_term(&c, k);
    }
    let Some(d) = expected::<N>(&p) else {
        ctx.bump("skipped: out of range");
        return;
    };
    ctx.max("degree", p.degree().unwrap_or(0) as u64);
    ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {}", N::NAME, p.show()));
    let s = SparsePolynomial::<N> { terms: p.t.iter().map(|(k, c)| (*k, nz(c))).collect() };
    judge(ctx, &s, &d);
    if let Some((k, c)) = p.t.iter().next() {
        if let Some(w) = expected::<N>(&MP::term(c.clone(), *k)) {
            judge(ctx, &Monomial::<N>::new(nz(c), *k), &w);
        }
        let z = Monomial::<N>::new(N::some_zero(&mut ctx.rng), *k);
        judge(ctx, &z, &MP::zero());
    }
}

/// A degree the coefficient type does not have must panic.
fn beyond<N: Coef>(ctx: &mut Ctx)
where
    Polynomial<N>: Derivable<N>,
    SparsePolynomial<N>: Derivable<N>,
    Monomial<N>: Derivable<N>,
{
    let top = limit::<N>();
    if top >= u128::from(u64::MAX) {
        // Every degree can be represented: the largest one works.
        let k = usize::MAX - ctx.rng.usize(3);
        let w = MP::term(Dy::int(k as i128), k - 1);
        if N::fits(&Dy::int(k as i128)) {
            judge(ctx, &SparsePolynomial::<N> { terms: [(k, N::one())].into_iter().collect() }, &w);
            judge(ctx, &Monomial::<N>::new(N::one(), k), &w);
        }
        return;
    }
    let top = top as usize;
    let k = loop {
        let k = match ctx.rng.below(6) {
            0 => top + 1,
            1 => top + 1 + ctx.rng.usize(6),
            2 => top.saturating_mul(2).saturating_add(ctx.rng.usize(4)),
            3 => usize::MAX - ctx.rng.usize(9),
            4 => (1usize << ctx.rng.usize(64)).wrapping_add(ctx.rng.usize(5)),
            _ => top.saturating_add(degree(&mut ctx.rng, usize::MAX)),
        };
        if k > top && has::<N>(k).is_none() {
            break k;
        }
    };
    let c = loop {
        let c = any_coef::<N>(&mut ctx.rng);
        if !c.is_zero() {
            break c;
        }
    };
    ctx.distinct(hash_bytes(format!("{} {} {}", N::NAME, c, k).as_bytes()));
    ctx.sample(|| format!("{}: {}x^{}", N::NAME, c, k));
    ctx.must_panic("Monomial past the limit", || Monomial::<N>::new(c, k).derivative());
    let mut s = SparsePolynomial::<N> { terms: [(k, c)].into_iter().collect() };
    for _ in 0..ctx.rng.usize(3) {
        s.terms.insert(ctx.rng.usize(4), N::one());
    }
    ctx.must_panic("SparsePolynomial past the limit", || s.derivative());
    if k < 70_000 {
        let mut v = vec![N::zero(); k + 1];
        v[0] = c;
        if ctx.rng.bool() {
            v[k] = N::one();
        }
        let pad = ctx.rng.usize(3);
        let mut t = vec![N::some_zero(&mut ctx.rng); pad];
        t.extend(v);
        let d = Polynomial { terms: t };
        ctx.must_panic("Polynomial past the limit", || d.derivative());
    }
}

/// Dense polynomials as long as the coefficient type allows.
fn long(ctx: &mut Ctx) {
    fn go<N: Coef>(ctx: &mut Ctx, deg: usize, panics: bool)
    where
        Polynomial<N>: Derivable<N>,
    {
        ctx.sample(|| format!("{}: x^{}, must panic: {}", N::NAME, deg, panics));
        ctx.distinct(hash_bytes(format!("{} {}", N::NAME, deg).as_bytes()));
        let mut terms = vec![N::zero(); deg + 1];
        terms[0] = N::one();
        let mid = ctx.rng.usize(deg);
        terms[mid] = N::one();
        let p = Polynomial { terms };
        if panics {
            ctx.must_panic("Polynomial past the limit", || p.derivative());
        } else if let Some(mut w) = expected::<N>(&MP::term(Dy::one(), deg)) {
            if mid != 0 {
                w = w.add(&expected::<N>(&MP::term(Dy::one(), deg - mid)).unwrap());
            }
            judge(ctx, &p, &w);
        }
    }
    match ctx.index {
        0 => go::<f32>(ctx, 1 << 24, false),
        1 => go::<f32>(ctx, (1 << 24) + 1, true),
        2 => go::<f32>(ctx, (1 << 24) - 1, false),
        3 => go::<u16>(ctx, 65535, false),
        4 => go::<u16>(ctx, 65536, true),
        5 => go::<i16>(ctx, 32767, false),
        6 => go::<i16>(ctx, 32768, true),
        7 => go::<f64>(ctx, (1 << 24) + 1, false),
        8 => go::<i32>(ctx, 1 << 20, false),
        9 => go::<u8>(ctx, 255, false),
        10 => go::<u8>(ctx, 256, true),
        11 => go::<i8>(ctx, 127, false),
        12 => go::<i8>(ctx, 128, true),
        13 => go::<i16>(ctx, 32766, false),
        14 => go::<u64>(ctx, 70_000, false),
        15 => go::<f32>(ctx, (1 << 24) + 3, true),
        16 => go::<u32>(ctx, 70_000, false),
        17 => go::<i128>(ctx, 70_000, false),
        18 => go::<i64>(ctx, 70_000, false),
        _ => go::<u128>(ctx, 70_000, false),
    }
}

fn s_rule(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, power_rule(ctx));
}
fn s_far(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, far(ctx));
}
fn s_beyond(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, beyond(ctx));
}

fn main() {
    run::main(Spec {
        id: "C10",
        rule: "Polynomials with coefficients up to the limit at which the product with the degree leaves the type are differentiated (and differentiated again) by every type which can hold them and compared with the power rule; degrees go up to the largest the coefficient type has, in every type which can hold them, and past it, where a panic must be observed. Non-trivial: positive degree; distinct by value and coefficient type.",
        assumptions: &["Products of coefficients and degrees are in range.", "Float products are rounded as the type rounds one multiplication."],
        sections: vec![
            Section { name: "power_rule", quick: 48_000, thorough: 1_500_000, f: s_rule },
            Section { name: "far", quick: 120_000, thorough: 3_000_000, f: s_far },
            Section { name: "beyond", quick: 36_000, thorough: 600_000, f: s_beyond },
            Section { name: "long", quick: 20, thorough: 20, f: long },
        ],
        known: vec![],
    })
}
