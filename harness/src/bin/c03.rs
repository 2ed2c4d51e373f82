//! C03: division returns quotient and remainder with n = q*d + r, and always terminates.
use rustnomial::{Polynomial, SparsePolynomial};
use std::collections::BTreeMap;
use std::ops::Neg;
use vh::ring::{counted, set_modulus, Ct, Zn, OUT_OF_FUEL};
use vh::rng::{hash_bytes, mix};
use vh::*;

/// Every way to divide dense polynomials; reports quotients and remainders.
fn all_dense<N>(n: &Polynomial<N>, d: &Polynomial<N>) -> Vec<(&'static str, Option<Polynomial<N>>, Option<Polynomial<N>>)>
where
    N: Copy + num::Zero + std::ops::SubAssign + std::ops::Mul<Output = N> + std::ops::Div<Output = N>,
{
    let (q, r) = n.div_mod(d);
    let f = n.floor_div(d);
    let m = n.own() % d.own();
    let mut a = n.own();
    a %= d.own();
    vec![
        ("Polynomial.div_mod", Some(q), Some(r)),
        ("Polynomial.floor_div", Some(f), None),
        ("Polynomial %", None, Some(m)),
        ("Polynomial %=", None, Some(a)),
    ]
}

fn all_sparse<N>(n: &SparsePolynomial<N>, d: &SparsePolynomial<N>) -> Vec<(&'static str, Option<SparsePolynomial<N>>, Option<SparsePolynomial<N>>)>
where
    N: Copy + num::Zero + Neg<Output = N> + std::ops::Sub<Output = N> + std::ops::SubAssign + std::ops::AddAssign + std::ops::Mul<Output = N> + std::ops::Div<Output = N>,
{
    let (q, r) = n.div_mod(d);
    let m = n.own() % d.own();
    let mut a = n.own();
    a %= d.own();
    vec![
        ("SparsePolynomial.div_mod", Some(q), Some(r)),
        ("SparsePolynomial %", None, Some(m)),
        ("SparsePolynomial %=", None, Some(a)),
    ]
}

/// Judges all results against the expected quotient and remainder.
fn judge<N: Coef, P: PolyT<N>>(ctx: &mut Ctx, what: &str, rs: Option<Vec<(&'static str, Option<P>, Option<P>)>>, q: &MP, r: &MP) {
    for (name, gq, gr) in rs.into_iter().flatten() {
        ctx.bump(name);
        if gq.is_some() {
            same(ctx, &format!("{} quotient of {}", name, what), gq, q);
        }
        if gr.is_some() {
            same(ctx, &format!("{} remainder of {}", name, what), gr, r);
        }
    }
}

/// n = q*d + r with deg r < deg d, over the integers: q and r are the only result which divides exactly at every step.
fn exact<N: Coef>(ctx: &mut Ctx) {
    let (n, d, q, r) = exact_operands::<N>(ctx);
    if q.t.len() > 1 && d.t.len() > 1 {
        ctx.distinct(n.hash() ^ d.hash().rotate_left(5) ^ hash_bytes(N::NAME.as_bytes()));
    }
    let what = format!("{}: ({}) / ({})", N::NAME, n.show(), d.show());
    ctx.sample(|| what.clone());
    let (p, o) = (dense::<N>(&n, &mut ctx.rng), dense::<N>(&d, &mut ctx.rng));
    ctx.log(|| format!("{:?} / {:?}", p, o));
    let rs = ctx.op("dense divisions", || all_dense(&p, &o));
    judge(ctx, &what, rs, &q, &r);
    // The same object on both sides.
    if !n.is_zero() {
        let rs = ctx.op("dense divisions by itself", || {
            let (q, r) = p.div_mod(&p);
            vec![("Polynomial.div_mod itself", Some(q), Some(r)), ("Polynomial.floor_div itself", Some(p.floor_div(&p)), None)]
        });
        judge(ctx, "divided by itself", rs, &MP::constant(Dy::one()), &MP::zero());
    }
}

fn exact_operands<N: Coef>(ctx: &mut Ctx) -> (MP, MP, MP, MP) {
    let rng = &mut ctx.rng;
    let mut bits = (N::BITS / 2).max(1);
    let (mut lq, mut ld) = (length(rng, 40), 1 + length(rng, 40));
    loop {
        let b1 = rng.below(u64::from(bits)) as u32 + 1;
        let s = scale_of::<N>(rng);
        let q = gen_dense::<N>(rng, lq, b1, s);
        let mut d = gen_dense::<N>(rng, ld, bits.saturating_sub(b1).max(1), 0);
        let style = rng.below(4);
        let dd = d.degree().unwrap_or(0);
        if style == 0 || d.is_zero() || d.degree() == None {
            // Monic (or with leading coefficient -1).
            let one = if N::SIGNED && rng.bool() { Dy::int(-1) } else { Dy::one() };
            d.t.insert(dd, one);
        }
        let r = if rng.chance(25) { MP::zero() } else {
            let n = rng.usize(dd + 1).min(dd);
            gen_dense::<N>(rng, n, bits, s)
        };
        let bound = q.abs().mul(&d.abs()).add(&r.abs()).scale(&Dy::int(2));
        if bound.fits::<N>() && q.abs().fits::<N>() {
            let n = q.mul(&d).add(&r);
            return (n, d, q, r);
        }
        bits = (bits * 2 / 3).max(1);
        if bits == 1 {
            lq = lq * 3 / 4;
            ld = (ld * 3 / 4).max(1);
        }
    }
}

fn exact_sparse<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let (n, d, q, r) = exact_operands::<N>(ctx);
    // Stretch degrees, and shift dividend and quotient: q keeps its number of terms.
    let k = *ctx.rng.pick(&[1usize, 1, 2, 5, 1 << 20, 1 << 50]);
    let st = |p: &MP| MP { t: p.t.iter().map(|(d, c)| (d * k, c.clone())).collect() };
    let (mut n, mut d, mut q, mut r) = (st(&n), st(&d), st(&q), st(&r));
    if !n.is_zero() && ctx.rng.chance(30) {
        // Up to the largest degrees: the dividend together with the divisor or, without remainder, with the quotient.
        let top = usize::MAX - if ctx.rng.bool() { 0 } else { ctx.rng.usize(4) };
        let up = top - n.degree().unwrap().max(d.degree().unwrap_or(0));
        let up = if ctx.rng.chance(20) { ctx.rng.usize(up) } else { up };
        let sh = |p: &MP| MP { t: p.t.iter().map(|(d, c)| (d + up, c.clone())).collect() };
        n = sh(&n);
        if r.is_zero() && ctx.rng.bool() {
            q = sh(&q);
        } else {
            d = sh(&d);
            r = sh(&r);
        }
        ctx.bump("divisions with huge degrees");
    }
    if q.t.len() > 1 && d.t.len() > 1 {
        ctx.distinct(n.hash() ^ d.hash().rotate_left(5) ^ hash_bytes(N::NAME.as_bytes()));
    }
    let what = format!("{}: ({}) / ({})", N::NAME, n.show(), d.show());
    ctx.sample(|| what.clone());
    let (p, o) = (sparse::<N>(&n, &mut ctx.rng), sparse::<N>(&d, &mut ctx.rng));
    ctx.log(|| format!("{:?} / {:?}", p, o));
    let rs = ctx.op("sparse divisions", || all_sparse(&p, &o));
    judge(ctx, &what, rs, &q, &r);
    if !n.is_zero() {
        let rs = ctx.op("sparse division by itself", || {
            let (q, r) = p.div_mod(&p);
            vec![("SparsePolynomial.div_mod itself", Some(q), Some(r))]
        });
        judge(ctx, "divided by itself", rs, &MP::constant(Dy::one()), &MP::zero());
    }
}

fn trunc(a: &Dy, b: &Dy) -> Dy {
    // Both whole numbers.
    Dy::big(&a.m / &b.m)
}

/// Integers which do not divide exactly: identity, stopping rule, and agreement of all forms.
fn inexact<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let (ln, ld) = (length(&mut ctx.rng, 16), 1 + ctx.rng.usize(5));
    let (bn, bd) = ((N::BITS / 2).max(2), (N::BITS / 8).max(2));
    let n = gen_dense::<N>(&mut ctx.rng, ln, bn, 0);
    let mut d = gen_dense::<N>(&mut ctx.rng, ld, bd, 0);
    if d.is_zero() {
        d = MP::constant(Dy::int(2));
    }
    check_inexact::<N>(ctx, &n, &d);
}

/// Simulates the division, to know whether it stays in range.
fn in_range<N: Coef>(n: &MP, d: &MP) -> bool {
    let (dd, lead) = d.t.iter().next_back().map(|(a, b)| (*a, b.clone())).unwrap();
    let mut r = n.clone();
    if !r.abs().fits::<N>() {
        return false;
    }
    loop {
        let Some((rd, rc)) = r.t.iter().next_back().map(|(a, b)| (*a, b.clone())) else { return true };
        if rd < dd {
            return true;
        }
        let s = trunc(&rc, &lead);
        if s.is_zero() {
            return true;
        }
        let sd = d.scale(&s).shl(rd - dd);
        if !sd.abs().add(&r.abs()).fits::<N>() || !N::fits(&s.abs()) {
            return false;
        }
        let next = r.sub(&sd);
        if next.degree() == Some(rd) {
            return true;
        }
        r = next;
    }
}

fn check_inexact<N: Coef + Neg<Output = N>>(ctx: &mut Ctx, n: &MP, d: &MP) {
    if !in_range::<N>(n, d) {
        ctx.bump("out of range, skipped");
        return;
    }
    if n.degree() >= d.degree() && !n.is_zero() {
        ctx.distinct(n.hash() ^ d.hash().rotate_left(5) ^ hash_bytes(N::NAME.as_bytes()));
    }
    let what = format!("{}: ({}) / ({})", N::NAME, n.show(), d.show());
    ctx.sample(|| what.clone());
    let (p, o) = (dense::<N>(n, &mut ctx.rng), dense::<N>(d, &mut ctx.rng));
    ctx.log(|| format!("{:?} / {:?}", p, o));
    let Some(rs) = ctx.op("dense divisions", || all_dense(&p, &o)) else { return };
    let (q, r) = match (rs[0].1.as_ref().unwrap().val(), rs[0].2.as_ref().unwrap().val()) {
        (Ok(q), Ok(r)) => (q, r),
        (Err(e), _) | (_, Err(e)) => return ctx.fail(format!("{}: {}", what, e)),
    };
    let back = q.mul(d).add(&r);
    ctx.check(back == *n, || format!("{}: q*d + r = {} with q = {}, r = {}", what, back.show(), q.show(), r.show()));
    let lead = d.t.values().next_back().unwrap();
    if r.degree() >= d.degree() && !r.is_zero() {
        let rl = r.t.values().next_back().unwrap();
        ctx.bump("stopped early");
        ctx.check(trunc(rl, lead).is_zero(), || format!("{}: stopped early at remainder {}", what, r.show()));
    }
    judge(ctx, &what, Some(rs), &q, &r);
    let (p, o) = (sparse::<N>(n, &mut ctx.rng), sparse::<N>(d, &mut ctx.rng));
    let rs = ctx.op("sparse divisions", || all_sparse(&p, &o));
    judge(ctx, &what, rs, &q, &r);
}

/// Unsigned coefficients: the dividend leaves a remainder at any degree, without going below zero.
fn inexact_unsigned<N: Coef>(ctx: &mut Ctx) {
    let (lq, ld) = (length(&mut ctx.rng, 8), 1 + ctx.rng.usize(5));
    let bits = 1 + ctx.rng.below(u64::from(N::BITS / 2)) as u32;
    let q = gen_dense::<N>(&mut ctx.rng, lq, bits, 0);
    let mut d = gen_dense::<N>(&mut ctx.rng, ld, bits, 0);
    if d.is_zero() {
        d = MP::constant(Dy::int(3));
    }
    let lead = d.t.values().next_back().unwrap().clone();
    let lr = length(&mut ctx.rng, 12);
    let r = gen_dense::<N>(&mut ctx.rng, lr, bits, 0);
    // At most one coefficient which does not divide, so that the rest is known.
    let (q, r) = match r.degree() {
        Some(k) if r.degree() >= d.degree() && trunc(&r.get(k), &lead).is_zero() => {
            let shift = k - d.degree().unwrap();
            (MP { t: q.t.iter().map(|(e, c)| (e + shift + 1, c.clone())).collect() }, r)
        }
        _ => (q, MP { t: r.t.into_iter().filter(|(k, _)| Some(*k) < d.degree()).collect() }),
    };
    let n = q.mul(&d).add(&r);
    if !n.fits::<N>() || n.degree().unwrap_or(0) > 60 {
        ctx.bump("out of range, skipped");
        return;
    }
    if !q.is_zero() && !r.is_zero() {
        ctx.distinct(n.hash() ^ d.hash().rotate_left(5) ^ hash_bytes(N::NAME.as_bytes()));
    }
    if r.degree() >= d.degree() {
        ctx.bump("stopped early");
    }
    let what = format!("{}: ({}) / ({})", N::NAME, n.show(), d.show());
    ctx.sample(|| what.clone());
    let (p, o) = (dense::<N>(&n, &mut ctx.rng), dense::<N>(&d, &mut ctx.rng));
    ctx.log(|| format!("{:?} / {:?}", p, o));
    let rs = ctx.op("dense divisions", || all_dense(&p, &o));
    judge(ctx, &what, rs, &q, &r);
}

/// All small integer operands.
fn small(ctx: &mut Ctx) {
    let mut i = ctx.index;
    let mut digit = |base: u64| {
        let v = i % base;
        i /= base;
        v as i128 - (base / 2) as i128
    };
    let mut n = MP::zero();
    let mut d = MP::zero();
    for k in 0..4 {
        n.add_term(&Dy::int(digit(5)), k);
    }
    for k in 0..3 {
        d.add_term(&Dy::int(digit(5)), k);
    }
    if d.is_zero() {
        let (p, o) = (dense::<i64>(&n, &mut ctx.rng), dense::<i64>(&d, &mut ctx.rng));
        ctx.must_panic("division by zero", || p.div_mod(&o));
        return;
    }
    check_inexact::<i64>(ctx, &n, &d);
}

fn at(v: &[Zn], d: usize) -> u64 {
    if d < v.len() { v[v.len() - 1 - d].0 } else { 0 }
}

fn zmap(p: &Polynomial<Zn>) -> BTreeMap<usize, u64> {
    (0..p.terms.len()).map(|d| (d, at(&p.terms, d))).filter(|x| x.1 != 0).collect()
}
fn smap(p: &SparsePolynomial<Zn>) -> BTreeMap<usize, u64> {
    p.terms.iter().filter(|(_, c)| c.0 != 0).map(|(d, c)| (*d, c.0)).collect()
}

/// Long quotients or divisors over i64; the divisor has a unit on top or divides at every step.
fn long_case(ctx: &mut Ctx) {
    let (mut lq, mut ld) = (1 + long::size(&mut ctx.rng, 14), 1 + ctx.rng.usize(8));
    if ctx.rng.bool() {
        std::mem::swap(&mut lq, &mut ld);
    } else if ctx.rng.chance(20) {
        ld = 1 + ctx.rng.usize(200);
        lq = lq.min(400);
    }
    let d = long::list(&mut ctx.rng, ld, 30);
    let q = long::list(&mut ctx.rng, lq, 1000);
    let lr = ctx.rng.usize(ld);
    let r = if ctx.rng.chance(30) { vec![] } else { long::list(&mut ctx.rng, lr, 1000) };
    let mut n = long::mul(&q, &d);
    for (i, c) in r.iter().enumerate() {
        n[i] += c;
    }
    ctx.distinct(mix(n.len() as u64) ^ mix(ld as u64).rotate_left(7) ^ n.iter().fold(0, |h, c| mix(h ^ *c as u64)));
    ctx.max("length of a dividend", n.len() as u64);
    let what = format!("lengths {} by {}, remainder of {}", n.len(), ld, lr);
    ctx.sample(|| what.clone());
    let (a, b) = (padding(&mut ctx.rng), padding(&mut ctx.rng));
    let (p, o) = (long::dense(&n, a), long::dense(&d, b));
    for (name, gq, gr) in ctx.op("long dense divisions", || all_dense(&p, &o)).into_iter().flatten() {
        long::judge(ctx, || format!("{} quotient, {}", name, what), gq, &q);
        long::judge(ctx, || format!("{} remainder, {}", name, what), gr, &r);
    }
    let zeros = ctx.rng.bool();
    let (p, o) = (long::sparse(&n, zeros), long::sparse(&d, zeros));
    for (name, gq, gr) in ctx.op("long sparse divisions", || all_sparse(&p, &o)).into_iter().flatten() {
        long::judge(ctx, || format!("{} quotient, {}", name, what), gq, &q);
        long::judge(ctx, || format!("{} remainder, {}", name, what), gr, &r);
    }
}

/// Prime fields: the Euclidean result is unique, and the number of operations is bounded.
fn fields(ctx: &mut Ctx) {
    let p = *ctx.rng.pick(&[2u64, 3, 5, 7, 97, 65537, 1_000_000_007]);
    set_modulus(p);
    let max = match ctx.rng.below(100) {
        0 => 2500,
        1..=8 => 300,
        _ => 24,
    };
    let (ln, ld) = (ctx.rng.usize(max), 1 + ctx.rng.usize(max));
    let mut gen = |l: usize| -> Vec<Zn> {
        if ctx.rng.chance(40) {
            gappy(&mut ctx.rng, l, Zn(0), |r| Zn(1 + r.below(p - 1)))
        } else {
            (0..l).map(|_| Zn(if ctx.rng.chance(30) { 0 } else { ctx.rng.below(p) })).collect()
        }
    };
    let n = gen(ln);
    let mut d = gen(ld);
    if d.iter().all(|c| c.0 == 0) {
        let k = d.len() - 1;
        d[k] = Zn(1);
    }
    // The reference.
    let dd = (0..d.len()).rev().find(|k| at(&d, *k) != 0).unwrap();
    let inv = {
        let (mut r, mut b, mut e) = (1u128, u128::from(at(&d, dd)), p - 2);
        while e > 0 {
            if e & 1 == 1 { r = r * b % u128::from(p); }
            b = b * b % u128::from(p);
            e >>= 1;
        }
        if p == 2 { 1 } else { r }
    };
    let mut r: Vec<u64> = (0..ln).map(|k| at(&n, k)).collect();
    let mut q: BTreeMap<usize, u64> = BTreeMap::new();
    for k in (dd..ln).rev() {
        if r[k] == 0 { continue; }
        let s = (u128::from(r[k]) * inv % u128::from(p)) as u64;
        q.insert(k - dd, s);
        for j in 0..=dd {
            let t = (u128::from(s) * u128::from(at(&d, j)) % u128::from(p)) as u64;
            r[k - dd + j] = (r[k - dd + j] + p - t) % p;
        }
    }
    let r: BTreeMap<usize, u64> = r.iter().enumerate().filter(|(_, c)| **c != 0).map(|(d, c)| (d, *c)).collect();
    if !q.is_empty() {
        ctx.distinct(hash_bytes(format!("{:?}{:?}{}", n, d, p).as_bytes()));
    }
    let what = format!("Z/{}: {:?} / {:?}", p, n.iter().map(|c| c.0).collect::<Vec<_>>(), d.iter().map(|c| c.0).collect::<Vec<_>>());
    ctx.sample(|| what.clone());
    let fuel = 4 * (64 + 16 * (ln as u64 + 4) * (ld as u64 + 4));
    let (pn, pd) = (Polynomial { terms: n.clone() }, Polynomial { terms: d.clone() });
    match ctx.try_op("counted dense divisions", || counted(fuel, || all_dense(&pn, &pd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("{}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("{} panicked: {}", what, m)),
        Ok((rs, c)) => {
            ctx.max("multiplications for one set of divisions", c.muls);
            for (name, gq, gr) in rs {
                ctx.bump(name);
                if let Some(g) = gq { ctx.eq(&format!("{} quotient of {}", name, what), &zmap(&g), &q); }
                if let Some(g) = gr { ctx.eq(&format!("{} remainder of {}", name, what), &zmap(&g), &r); }
            }
        }
    }
    let sp = |v: &[Zn], rng: &mut Rng| SparsePolynomial { terms: v.iter().enumerate().filter(|(_, c)| c.0 != 0 || rng.bool()).map(|(i, c)| (v.len() - 1 - i, *c)).collect::<BTreeMap<_, _>>() };
    let (sn, sd) = (sp(&n, &mut ctx.rng), sp(&d, &mut ctx.rng));
    match ctx.try_op("counted sparse divisions", || counted(fuel, || all_sparse(&sn, &sd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("sparse {}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("sparse {} panicked: {}", what, m)),
        Ok((rs, _)) => {
            for (name, gq, gr) in rs {
                ctx.bump(name);
                if let Some(g) = gq { ctx.eq(&format!("{} quotient of {}", name, what), &smap(&g), &q); }
                if let Some(g) = gr { ctx.eq(&format!("{} remainder of {}", name, what), &smap(&g), &r); }
            }
        }
    }
}

/// Floats: termination by counting, and the identity within rounding.
fn floats(ctx: &mut Ctx) {
    let (ln, ld) = (ctx.rng.usize(24), 1 + ctx.rng.usize(12));
    let style = ctx.rng.below(4);
    let gen = |rng: &mut Rng, l: usize| -> Vec<f64> {
        (0..l)
            .map(|_| match style {
                _ if rng.chance(15) => if rng.bool() { 0.0 } else { -0.0 },
                0 => rng.range(-9, 9) as f64,
                1 => rng.range(-99, 99) as f64 / 10.0,
                2 => (rng.unit() - 0.5) * 2f64.powi(rng.range(-12, 12) as i32),
                _ => rng.unit() - 0.5,
            })
            .collect()
    };
    let n = gen(&mut ctx.rng, ln);
    let mut d = gen(&mut ctx.rng, ld);
    if d.iter().all(|c| *c == 0.0) {
        d[0] = 3.0;
    }
    float_case(ctx, &n, &d);
}

fn float_case(ctx: &mut Ctx, n: &[f64], d: &[f64]) {
    let (ln, ld) = (n.len(), d.len());
    let what = format!("{:?} / {:?}", n, d);
    ctx.sample(|| what.clone());
    let dn = |v: &[f64]| { let mut p = MP::zero(); for (i, c) in v.iter().enumerate() { p.add_term(&c.dy().unwrap(), v.len() - 1 - i); } p };
    let (mn, md) = (dn(n), dn(d));
    if mn.degree() >= md.degree() {
        ctx.distinct(hash_bytes(what.as_bytes()));
    }
    let fuel = 4 * (64 + 16 * (ln as u64 + 4) * (ld as u64 + 4));
    let ct = |v: &[f64]| v.iter().map(|c| Ct(*c)).collect::<Vec<_>>();
    let (pn, pd) = (Polynomial { terms: ct(n) }, Polynomial { terms: ct(d) });
    let sp = |v: &[f64]| SparsePolynomial { terms: v.iter().enumerate().map(|(i, c)| (v.len() - 1 - i, Ct(*c))).collect::<BTreeMap<_, _>>() };
    let (sn, sd) = (sp(n), sp(d));
    let undense = |p: Polynomial<Ct<f64>>| -> Option<MP> { Polynomial { terms: p.terms.iter().map(|c| c.0).collect::<Vec<_>>() }.val().ok() };
    let unsparse = |p: SparsePolynomial<Ct<f64>>| -> Option<MP> { SparsePolynomial { terms: p.terms.iter().map(|(d, c)| (*d, c.0)).collect() }.val().ok() };
    let mut groups: Vec<Vec<(&'static str, Option<Option<MP>>, Option<Option<MP>>)>> = vec![];
    match ctx.try_op("counted dense divisions", || counted(fuel, || all_dense(&pn, &pd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("{}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("{} panicked: {}", what, m)),
        Ok((rs, _)) => groups.push(rs.into_iter().map(|(s, a, b)| (s, a.map(undense), b.map(undense))).collect()),
    }
    match ctx.try_op("counted sparse divisions", || counted(fuel, || all_sparse(&sn, &sd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("sparse {}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("sparse {} panicked: {}", what, m)),
        Ok((rs, _)) => groups.push(rs.into_iter().map(|(s, a, b)| (s, a.map(unsparse), b.map(unsparse))).collect()),
    }
    let eps = Dy::int(16 + 4 * ln as i128).mul(&Dy::pow2(-53));
    let mut firsts: Vec<(MP, MP)> = vec![];
    for g in groups {
        let (Some(Some(q)), Some(Some(r))) = (g[0].1.clone(), g[0].2.clone()) else {
            ctx.bump("overflowed, not judged");
            return;
        };
        let scale = q.abs().mul(&md.abs()).add(&mn.abs());
        let err = mn.sub(&q.mul(&md)).sub(&r);
        for (k, e) in &err.t {
            let lim = scale.get(*k).mul(&eps).add(&Dy::pow2(-900));
            ctx.check(e.abs() <= lim, || format!("{} {}: q*d + r is off by {:e} at degree {}, allowed {:e}; q = {}, r = {}", g[0].0, what, e.approx(), k, lim.approx(), q.show(), r.show()));
        }
        ctx.check(r.degree() < md.degree() || r.is_zero(), || format!("{} {}: remainder {} is not of lower degree than the divisor", g[0].0, what, r.show()));
        // The other forms agree, up to rounding.
        for (name, gq, gr) in &g[1..] {
            for (got, want, which) in [(gq, &q, "quotient"), (gr, &r, "remainder")] {
                if let Some(got) = got {
                    let Some(got) = got else { ctx.fail(format!("{} {}: not finite", name, what)); continue };
                    let diff = got.sub(want);
                    for (k, e) in &diff.t {
                        let lim = scale.get(*k).add(&want.get(*k).abs()).mul(&eps).mul(&Dy::int(4));
                        ctx.check(e.abs() <= lim, || format!("{} {} of {}: degree {} differs from that of div_mod by {:e}", name, which, what, k, e.approx()));
                    }
                    ctx.check(which == "quotient" || got.is_zero() || got.degree() < md.degree(), || format!("{} {}: remainder of too high degree", name, what));
                }
            }
        }
        firsts.push((q, r));
    }
    if firsts.len() == 2 {
        // Dense and sparse do the same steps; rounding may differ, growing with the steps.
        let (a, b) = (&firsts[0], &firsts[1]);
        let same = a.0.sub(&b.0).abs();
        let scale = a.0.abs().t.values().max().cloned().unwrap_or_else(Dy::zero);
        for (k, e) in &same.t {
            let lim = scale.mul(&Dy::pow2(-12));
            if e > &lim {
                ctx.bump("dense and sparse float quotients far apart (ill-conditioned)");
            }
            let _ = k;
        }
    }
}

/// Values whose quotient, multiplied back, leaves a rounding residue at the leading degree.
fn residue(ctx: &mut Ctx) {
    let a = (ctx.rng.range(1, 999) as f64) / (ctx.rng.range(1, 99) as f64);
    let b = (ctx.rng.range(1, 999) as f64) / (ctx.rng.range(1, 99) as f64);
    let mut n = vec![a];
    for _ in 0..ctx.rng.usize(6) {
        n.push(ctx.rng.range(-99, 99) as f64 / 7.0);
    }
    let mut d = vec![b];
    for _ in 0..ctx.rng.usize(3) {
        d.push(ctx.rng.range(-99, 99) as f64 / 3.0);
    }
    float_case(ctx, &n, &d);
}

fn zero_divisor<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let l = length(&mut ctx.rng, 20);
    let n = gen_dense::<N>(&mut ctx.rng, l, N::BITS / 2, 0);
    let p = dense::<N>(&n, &mut ctx.rng);
    let z = dense::<N>(&MP::zero(), &mut ctx.rng);
    ctx.distinct(n.hash() ^ z.terms.len() as u64);
    ctx.sample(|| format!("{:?} / {:?}", p, z));
    ctx.must_panic("Polynomial.div_mod by zero", || p.div_mod(&z));
    ctx.must_panic("Polynomial.floor_div by zero", || p.floor_div(&z));
    ctx.must_panic("Polynomial % zero", || p.clone() % z.clone());
    ctx.must_panic("Polynomial %= zero", || { let mut x = p.clone(); x %= z.clone(); x });
    let p = sparse::<N>(&n, &mut ctx.rng);
    let z = sparse::<N>(&MP::zero(), &mut ctx.rng);
    ctx.must_panic("SparsePolynomial.div_mod by zero", || p.div_mod(&z));
    ctx.must_panic("SparsePolynomial % zero", || p.clone() % z.clone());
    ctx.must_panic("SparsePolynomial %= zero", || { let mut x = p.clone(); x %= z.clone(); x });
}

/// Counted integers: termination when coefficients do not divide.
fn int_cost(ctx: &mut Ctx) {
    let (ln, ld) = (ctx.rng.usize(14), 1 + ctx.rng.usize(6));
    let g = |rng: &mut Rng, l: usize, m: i64| -> Vec<i128> { (0..l).map(|_| i128::from(rng.range(-m, m))).collect() };
    let n = g(&mut ctx.rng, ln, 50);
    let mut d = g(&mut ctx.rng, ld, 7);
    if d.iter().all(|c| *c == 0) {
        d[0] = 2;
    }
    let what = format!("{:?} / {:?}", n, d);
    ctx.distinct(hash_bytes(what.as_bytes()));
    ctx.sample(|| what.clone());
    let fuel = 4 * (64 + 16 * (ln as u64 + 4) * (ld as u64 + 4));
    let ct = |v: &[i128]| v.iter().map(|c| Ct(*c)).collect::<Vec<_>>();
    let (pn, pd) = (Polynomial { terms: ct(&n) }, Polynomial { terms: ct(&d) });
    match ctx.try_op("counted integer divisions", || counted(fuel, || all_dense(&pn, &pd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("{}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("{} panicked: {}", what, m)),
        Ok((_, c)) => ctx.max("multiplications for one set of integer divisions", c.muls),
    }
    let sp = |v: &[i128]| SparsePolynomial { terms: v.iter().enumerate().map(|(i, c)| (v.len() - 1 - i, Ct(*c))).collect::<BTreeMap<_, _>>() };
    let (sn, sd) = (sp(&n), sp(&d));
    match ctx.try_op("counted integer divisions", || counted(fuel, || all_sparse(&sn, &sd))) {
        Err(m) if m.contains(OUT_OF_FUEL) => ctx.fail(format!("sparse {}: more than {} coefficient operations", what, fuel)),
        Err(m) => ctx.fail(format!("sparse {} panicked: {}", what, m)),
        Ok(_) => {}
    }
}

fn s_exact(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, exact(ctx));
}
fn s_exact_sparse(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, exact_sparse(ctx));
}
fn s_inexact(ctx: &mut Ctx) {
    match ctx.index % 6 {
        0 => inexact::<i32>(ctx),
        1 => inexact::<i64>(ctx),
        2 => inexact::<i128>(ctx),
        3 => inexact::<i8>(ctx),
        4 => inexact::<isize>(ctx),
        _ => inexact::<i16>(ctx),
    }
}
fn s_inexact_unsigned(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(unsigned, i, inexact_unsigned(ctx));
}
fn s_zero(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, zero_divisor(ctx));
}

fn main() {
    run::main(Spec {
        id: "C03",
        rule: "Operands: built from a chosen quotient, divisor and remainder (so the result is known), arbitrary integers (identity and stopping rule judged), all 78125 small integer pairs, prime fields (against a reference division, with coefficient operations counted and bounded), floats (identity within rounding, counted), zero divisors (must panic); dense and sparse, quotient, %, and %= all judged. Non-trivial: the division has at least one step (exact: quotient and divisor of more than one term); distinct by operands and type.",
        assumptions: &[
            "Integers are judged where twice the sum of absolute values of the partial products is in range.",
            "Floats are judged where the results are finite.",
        ],
        sections: vec![
            Section { name: "exact", quick: 28_000, thorough: 560_000, f: s_exact },
            Section { name: "exact_sparse", quick: 16_000, thorough: 320_000, f: s_exact_sparse },
            Section { name: "inexact", quick: 24_000, thorough: 480_000, f: s_inexact },
            Section { name: "inexact_unsigned", quick: 18_000, thorough: 360_000, f: s_inexact_unsigned },
            Section { name: "small", quick: 78_125, thorough: 78_125, f: small },
            Section { name: "fields", quick: 12_000, thorough: 240_000, f: fields },
            Section { name: "floats", quick: 16_000, thorough: 320_000, f: floats },
            Section { name: "residue", quick: 16_000, thorough: 320_000, f: residue },
            Section { name: "int_cost", quick: 8_000, thorough: 160_000, f: int_cost },
            Section { name: "zero_divisor", quick: 1_600, thorough: 16_000, f: s_zero },
            Section { name: "long", quick: 300, thorough: 6_000, f: long_case },
        ],
        known: vec![],
    })
}
