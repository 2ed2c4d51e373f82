//! C01: arithmetic operators compute the exact polynomial sum, difference and product.
use num::Complex;
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::collections::BTreeMap;
use std::ops::Neg;
use vh::ring::{set_modulus, Zn};
use vh::*;

/// Any coefficient-wise operation: the domain is that results are values of the type.
fn wide<N: Coef>(rng: &mut Rng, max: usize) -> MP {
    // Coefficients may be extreme.
    let n = length(rng, max);
    let mut p = MP::zero();
    let s = scale_of::<N>(rng);
    let extreme = rng.chance(30);
    let bits = if rng.chance(30) { N::BITS } else { rng.below(u64::from(N::BITS)) as u32 + 1 };
    for d in 0..n {
        let c = if extreme && rng.chance(40) && !N::FLOAT {
            any_coef::<N>(rng).dy().unwrap()
        } else {
            coef::<N>(rng, bits, s)
        };
        p.add_term(&c, d);
    }
    p
}

fn has_min<N: Coef>(p: &MP) -> bool {
    let m = N::min_v().dy().unwrap();
    N::SIGNED && p.t.values().any(|c| *c == m)
}

/// A pair for which `f` of them is representable.
fn linear_pair<N: Coef>(rng: &mut Rng, max: usize, f: fn(&MP, &MP) -> MP) -> (MP, MP, MP) {
    for _ in 0..6 {
        let a = wide::<N>(rng, max);
        let (bits, s) = (rng.below(u64::from(N::BITS)) as u32 + 1, a.t.values().next().map_or(0, |c| c.e.min(0)));
        let b = if rng.chance(20) { wide::<N>(rng, max) } else { partner::<N>(rng, &a, bits, s, max) };
        let w = f(&a, &b);
        if representable::<N>(&a) && representable::<N>(&b) && representable::<N>(&w) {
            return if rng.bool() { (a, b, w) } else {
                let w2 = f(&b, &a);
                if representable::<N>(&w2) { (b, a, w2) } else { (a, b, w) }
            };
        }
    }
    // Small enough for all types.
    let (n, m) = (rng.usize(max.min(20)), rng.usize(max.min(20)));
    let a = gen_dense::<N>(rng, n, N::BITS / 2, 0);
    let b = gen_dense::<N>(rng, m, N::BITS / 2, 0);
    let w = f(&a, &b);
    if representable::<N>(&w) {
        (a, b, w)
    } else {
        let w = f(&a, &MP::zero());
        (a, MP::zero(), w)
    }
}

/// Redistributes degrees to make a sparse polynomial.
fn spread(rng: &mut Rng, ps: &[&MP]) -> Vec<MP> {
    let top = ps.iter().filter_map(|p| p.degree()).max().unwrap_or(0);
    let mut map = Vec::with_capacity(top + 1);
    let mut d = 0usize;
    let style = rng.below(4);
    for _ in 0..=top {
        map.push(d);
        d += match style {
            0 => 1,
            1 => 1 + rng.usize(4),
            2 => 1 + rng.usize(1 << 20),
            _ => 1 + rng.usize(usize::MAX / 4 / (top + 1)),
        };
    }
    // From the largest degree down.
    if rng.chance(20) {
        map.iter_mut().for_each(|d| *d = usize::MAX - *d);
    }
    ps.iter()
        .map(|p| MP { t: p.t.iter().map(|(d, c)| (map[*d], c.clone())).collect() })
        .collect()
}

fn add<N: Coef>(ctx: &mut Ctx) {
    let (a, b, w) = linear_pair::<N>(&mut ctx.rng, 200, MP::add);
    if !a.is_zero() && !b.is_zero() {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(7) ^ rng_tag(N::NAME));
    }
    ctx.sample(|| format!("{}: ({}) + ({})", N::NAME, a.show(), b.show()));
    let (p, q) = (dense::<N>(&a, &mut ctx.rng), dense::<N>(&b, &mut ctx.rng));
    ctx.log(|| format!("dense {:?} , {:?}", p, q));
    let r = ctx.op("Polynomial + Polynomial", || p.own() + q.own());
    same(ctx, "Polynomial + Polynomial", r, &w);
    let r = ctx.op("Polynomial += Polynomial", || { let mut x = p.own(); x += q.own(); x });
    same(ctx, "Polynomial += Polynomial", r, &w);
    let v = spread(&mut ctx.rng, &[&a, &b, &w]);
    let (a, b, w) = (&v[0], &v[1], &v[2]);
    let (p, q) = (sparse::<N>(a, &mut ctx.rng), sparse::<N>(b, &mut ctx.rng));
    ctx.log(|| format!("sparse {:?} , {:?}", p, q));
    let r = ctx.op("SparsePolynomial + SparsePolynomial", || p.own() + q.own());
    same(ctx, "SparsePolynomial + SparsePolynomial", r, w);
    let r = ctx.op("SparsePolynomial += SparsePolynomial", || { let mut x = p.own(); x += q.own(); x });
    same(ctx, "SparsePolynomial += SparsePolynomial", r, w);
    // Fixed sizes.
    let (a, b, w) = linear_pair::<N>(&mut ctx.rng, 3, MP::add);
    let (p, q) = (QuadraticTrinomial::<N>::build(&a, &mut ctx.rng).unwrap(), QuadraticTrinomial::<N>::build(&b, &mut ctx.rng).unwrap());
    let r = ctx.op("QuadraticTrinomial +", || p.own() + q.own());
    same(ctx, "QuadraticTrinomial + QuadraticTrinomial", r, &w);
    let r = ctx.op("QuadraticTrinomial +=", || { let mut x = p.own(); x += q.own(); x });
    same(ctx, "QuadraticTrinomial += QuadraticTrinomial", r, &w);
    let (a, b, w) = linear_pair::<N>(&mut ctx.rng, 2, MP::add);
    let (p, q) = (LinearBinomial::<N>::build(&a, &mut ctx.rng).unwrap(), LinearBinomial::<N>::build(&b, &mut ctx.rng).unwrap());
    let r = ctx.op("LinearBinomial +", || p.own() + q.own());
    same(ctx, "LinearBinomial + LinearBinomial", r, &w);
    let r = ctx.op("LinearBinomial +=", || { let mut x = p.own(); x += q.own(); x });
    same(ctx, "LinearBinomial += LinearBinomial", r, &w);
}

fn rng_tag(s: &str) -> u64 {
    rng::hash_bytes(s.as_bytes())
}
use vh::rng;

/// A polynomial which can be negated.
fn fixed_pair<N: Coef, P: PolyT<N>>(ctx: &mut Ctx, max: usize) -> (MP, MP, Option<P>) {
    let (a, b, _) = linear_pair::<N>(&mut ctx.rng, max, MP::sub);
    if has_min::<N>(&b) {
        return (a, b, None);
    }
    let q = P::build(&b, &mut ctx.rng);
    (a, b, q)
}

/// Operands and their difference.
fn difference<N: Coef>(rng: &mut Rng, max: usize) -> (MP, MP, MP) {
    if N::SIGNED && rng.bool() {
        return linear_pair::<N>(rng, max, MP::sub);
    }
    let (w, b, a) = linear_pair::<N>(rng, max, MP::add);
    (a, b, w)
}

/// Subtraction of the fixed-size types, which unsigned coefficients have as well.
fn sub_fixed<N: Coef>(ctx: &mut Ctx) {
    let (a, b, w) = difference::<N>(&mut ctx.rng, 3);
    ctx.distinct(a.hash() ^ b.hash().rotate_left(7) ^ rng_tag(N::NAME));
    let (p, q) = (QuadraticTrinomial::<N>::build(&a, &mut ctx.rng).unwrap(), QuadraticTrinomial::<N>::build(&b, &mut ctx.rng).unwrap());
    ctx.log(|| format!("{:?} , {:?}", p, q));
    let r = ctx.op("QuadraticTrinomial -", || p.own() - q.own());
    same(ctx, "QuadraticTrinomial - QuadraticTrinomial", r, &w);
    let r = ctx.op("QuadraticTrinomial -=", || { let mut x = p.own(); x -= q.own(); x });
    same(ctx, "QuadraticTrinomial -= QuadraticTrinomial", r, &w);
    let (a, b, w) = difference::<N>(&mut ctx.rng, 2);
    let (p, q) = (LinearBinomial::<N>::build(&a, &mut ctx.rng).unwrap(), LinearBinomial::<N>::build(&b, &mut ctx.rng).unwrap());
    ctx.log(|| format!("{:?} , {:?}", p, q));
    let r = ctx.op("LinearBinomial -", || p.own() - q.own());
    same(ctx, "LinearBinomial - LinearBinomial", r, &w);
    let r = ctx.op("LinearBinomial -=", || { let mut x = p.own(); x -= q.own(); x });
    same(ctx, "LinearBinomial -= LinearBinomial", r, &w);
}

fn sub<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let (a, b, w) = linear_pair::<N>(&mut ctx.rng, 200, MP::sub);
    if !a.is_zero() && !b.is_zero() {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(7) ^ rng_tag(N::NAME));
    }
    ctx.sample(|| format!("{}: ({}) - ({})", N::NAME, a.show(), b.show()));
    let (p, q) = (dense::<N>(&a, &mut ctx.rng), dense::<N>(&b, &mut ctx.rng));
    ctx.log(|| format!("dense {:?} , {:?}", p, q));
    let r = ctx.op("Polynomial - Polynomial", || p.own() - q.own());
    same(ctx, "Polynomial - Polynomial", r, &w);
    let r = ctx.op("Polynomial -= Polynomial", || { let mut x = p.own(); x -= q.own(); x });
    same(ctx, "Polynomial -= Polynomial", r, &w);
    let r = ctx.op("Polynomial - &Polynomial", || p.own() - &q);
    same(ctx, "Polynomial - &Polynomial", r, &w);
    let r = ctx.op("Polynomial -= &Polynomial", || { let mut x = p.own(); x -= &q; x });
    same(ctx, "Polynomial -= &Polynomial", r, &w);
    // Sparse minus dense, at the same degrees.
    let p2 = sparse::<N>(&a, &mut ctx.rng);
    let r = ctx.op("SparsePolynomial - Polynomial", || p2.own() - q.own());
    same(ctx, "SparsePolynomial - Polynomial", r, &w);
    let v = spread(&mut ctx.rng, &[&a, &b, &w]);
    let (sa, sb, sw) = (&v[0], &v[1], &v[2]);
    let (p, q) = (sparse::<N>(sa, &mut ctx.rng), sparse::<N>(sb, &mut ctx.rng));
    ctx.log(|| format!("sparse {:?} , {:?}", p, q));
    let r = ctx.op("SparsePolynomial - SparsePolynomial", || p.own() - q.own());
    same(ctx, "SparsePolynomial - SparsePolynomial", r, sw);
    let r = ctx.op("SparsePolynomial -= SparsePolynomial", || { let mut x = p.own(); x -= q.own(); x });
    same(ctx, "SparsePolynomial -= SparsePolynomial", r, sw);
    // Negation.
    if !has_min::<N>(&b) {
        let n = b.neg();
        let q = dense::<N>(&b, &mut ctx.rng);
        let r = ctx.op("-Polynomial", || -q.own());
        same(ctx, "-Polynomial", r, &n);
        let q = sparse::<N>(sb, &mut ctx.rng);
        let r = ctx.op("-SparsePolynomial", || -q.own());
        same(ctx, "-SparsePolynomial", r, &sb.neg());
    } else {
        ctx.bump("smallest integer subtracted");
    }

    sub_fixed::<N>(ctx);
    if let (_, b, Some(q)) = fixed_pair::<N, QuadraticTrinomial<N>>(ctx, 3) {
        let r = ctx.op("-QuadraticTrinomial", || -q.own());
        same(ctx, "-QuadraticTrinomial", r, &b.neg());
    }
    if let (_, b, Some(q)) = fixed_pair::<N, LinearBinomial<N>>(ctx, 2) {
        let r = ctx.op("-LinearBinomial", || -q.own());
        same(ctx, "-LinearBinomial", r, &b.neg());
    }
    let c = coef::<N>(&mut ctx.rng, N::BITS, 0);
    let m = MP::term(c, degree(&mut ctx.rng, usize::MAX));
    let p = Monomial::<N>::build(&m, &mut ctx.rng).unwrap();
    let r = ctx.op("-Monomial", || -p.own());
    same(ctx, "-Monomial", r, &m.neg());
}

fn product_pair<N: Coef>(rng: &mut Rng, max: usize) -> (MP, MP, MP) {
    let (la, lb) = (length(rng, max), length(rng, max));
    let depth = (la.min(lb) as f64).log2().max(0.0) as u32 + 1;
    let total = N::BITS.saturating_sub(if rng.bool() { depth } else { 0 });
    let mut ba = rng.below(u64::from(total.max(1))) as u32 + 1;
    let mut bb = total.saturating_sub(ba).max(1);
    loop {
        let (sa, sb) = (scale_of::<N>(rng), scale_of::<N>(rng));
        let a = gen_dense::<N>(rng, la, ba, sa);
        let b = if rng.chance(60) {
            gen_dense::<N>(rng, lb, bb, sb)
        } else {
            partner::<N>(rng, &a, bb, sb, max)
        };
        let bound = a.abs().mul(&b.abs());
        if bound.fits::<N>() {
            let w = a.mul(&b);
            return if rng.bool() { (a, b, w) } else { (b, a, w) };
        }
        if ba > 1 || bb > 1 {
            ba = (ba * 2 / 3).max(1);
            bb = (bb * 2 / 3).max(1);
        } else {
            let n = rng.usize(6);
            let a = gen_dense::<N>(rng, n, 1, 0);
            let b = gen_dense::<N>(rng, 3, 1, 0);
            let w = a.mul(&b);
            return (a, b, w);
        }
    }
}

fn mul<N: Coef>(ctx: &mut Ctx) {
    let (a, b, w) = product_pair::<N>(&mut ctx.rng, 90);
    if !w.is_zero() && w.t.len() > 1 {
        ctx.distinct(a.hash() ^ b.hash().rotate_left(7) ^ rng_tag(N::NAME));
    }
    ctx.sample(|| format!("{}: ({}) * ({})", N::NAME, a.show(), b.show()));
    let (p, q) = (dense::<N>(&a, &mut ctx.rng), dense::<N>(&b, &mut ctx.rng));
    ctx.log(|| format!("dense {:?} , {:?}", p, q));
    let r = ctx.op("Polynomial * Polynomial", || p.own() * q.own());
    same(ctx, "Polynomial * Polynomial", r, &w);
    let r = ctx.op("Polynomial * &Polynomial", || p.own() * &q);
    same(ctx, "Polynomial * &Polynomial", r, &w);
    let r = ctx.op("&Polynomial * Polynomial", || &p * q.own());
    same(ctx, "&Polynomial * Polynomial", r, &w);
    let r = ctx.op("&Polynomial * &Polynomial", || &p * &q);
    same(ctx, "&Polynomial * &Polynomial", r, &w);
    let r = ctx.op("Polynomial *= Polynomial", || { let mut x = p.own(); x *= q.own(); x });
    same(ctx, "Polynomial *= Polynomial", r, &w);
    let r = ctx.op("Polynomial *= &Polynomial", || { let mut x = p.own(); x *= &q; x });
    same(ctx, "Polynomial *= &Polynomial", r, &w);
    // The same object on both sides.
    let square = if a.abs().mul(&a.abs()).fits::<N>() { Some(a.mul(&a)) } else { None };
    if let Some(sq) = &square {
        let r = ctx.op("&Polynomial * itself", || &p * &p);
        same(ctx, "&Polynomial * itself", r, sq);
        ctx.bump("squares of one object");
    }
    // Sparse: gaps which keep sums of degrees unique or not.
    let k = *ctx.rng.pick(&[1usize, 2, 3, 1000, 1 << 33, 1 << 52]);
    let stretch = |p: &MP| MP { t: p.t.iter().map(|(d, c)| (d * k, c.clone())).collect() };
    let off = if ctx.rng.bool() { 0 } else { degree(&mut ctx.rng, usize::MAX / 8) };
    let (sa, sb, sw) = (stretch(&a), stretch(&b).shl(off), stretch(&w).shl(off));
    let (p, q) = (sparse::<N>(&sa, &mut ctx.rng), sparse::<N>(&sb, &mut ctx.rng));
    ctx.log(|| format!("sparse {:?} , {:?}", p, q));
    let r = ctx.op("SparsePolynomial * SparsePolynomial", || p.own() * q.own());
    same(ctx, "SparsePolynomial * SparsePolynomial", r, &sw);
    let r = ctx.op("SparsePolynomial * &SparsePolynomial", || p.own() * &q);
    same(ctx, "SparsePolynomial * &SparsePolynomial", r, &sw);
    let r = ctx.op("SparsePolynomial *= SparsePolynomial", || { let mut x = p.own(); x *= q.own(); x });
    same(ctx, "SparsePolynomial *= SparsePolynomial", r, &sw);
    let r = ctx.op("SparsePolynomial *= &SparsePolynomial", || { let mut x = p.own(); x *= &q; x });
    same(ctx, "SparsePolynomial *= &SparsePolynomial", r, &sw);
    let r = ctx.op("SparsePolynomial.borrow_mul", || p.borrow_mul(&q));
    same(ctx, "SparsePolynomial.borrow_mul", r, &sw);
    if let Some(sq) = &square {
        let r = ctx.op("SparsePolynomial.borrow_mul itself", || p.borrow_mul(&p));
        same(ctx, "SparsePolynomial.borrow_mul itself", r, &stretch(sq));
    }
    // Monomials.
    let ba = ctx.rng.below(u64::from(N::BITS)) as u32 + 1;
    let (ca, cb) = (coef::<N>(&mut ctx.rng, ba, 0), coef::<N>(&mut ctx.rng, (N::BITS - ba).max(1), 0));
    if N::fits(&ca.mul(&cb).abs()) {
        let (a, b) = (MP::term(ca, degree(&mut ctx.rng, usize::MAX / 2)), MP::term(cb, degree(&mut ctx.rng, usize::MAX / 2)));
        let (p, q) = (Monomial::<N>::build(&a, &mut ctx.rng).unwrap(), Monomial::<N>::build(&b, &mut ctx.rng).unwrap());
        let w = a.mul(&b);
        ctx.log(|| format!("{:?} , {:?}", p, q));
        let r = ctx.op("Monomial * Monomial", || p.own() * q.own());
        same(ctx, "Monomial * Monomial", r, &w);
        let r = ctx.op("Monomial * &Monomial", || p.own() * &q);
        same(ctx, "Monomial * &Monomial", r, &w);
        let r = ctx.op("Monomial *= Monomial", || { let mut x = p.own(); x *= q.own(); x });
        same(ctx, "Monomial *= Monomial", r, &w);
        let r = ctx.op("Monomial *= &Monomial", || { let mut x = p.own(); x *= &q; x });
        same(ctx, "Monomial *= &Monomial", r, &w);
    }
}

/// Scalar multiplication and division, with the operation of the coefficient type as the reference.
fn scalar<N: Coef>(ctx: &mut Ctx) {
    let dividing = ctx.rng.bool();
    let max = if ctx.rng.chance(5) { 400 } else { 60 };
    let n = length(&mut ctx.rng, max);
    let mut vals: Vec<N> = (0..n)
        .map(|_| {
            if ctx.rng.chance(15) { N::some_zero(&mut ctx.rng) } else { any_coef::<N>(&mut ctx.rng) }
        })
        .collect();
    let mut s: N = if ctx.rng.chance(10) && !dividing {
        N::some_zero(&mut ctx.rng)
    } else if ctx.rng.chance(50) {
        let c = coef::<N>(&mut ctx.rng, 4.min(N::BITS), 0);
        nz(&c)
    } else {
        any_coef::<N>(&mut ctx.rng)
    };
    if dividing && s.is_zero() {
        s = N::one();
    }
    let f = |x: N| -> Option<N> {
        if N::FLOAT {
            let v = if dividing { x / s } else { x * s };
            v.dy().map(|_| v)
        } else {
            let (x, s) = (x.dy().unwrap(), s.dy().unwrap());
            let e = if dividing { Dy::big(x.m / s.m) } else { x.mul(&s) };
            N::from_dy(&e)
        }
    };
    // Out of range coefficients are replaced.
    for v in vals.iter_mut() {
        if f(*v).is_none() {
            *v = if ctx.rng.bool() { N::one() } else { N::zero() };
            if f(*v).is_none() {
                *v = N::zero();
            }
        }
    }
    let want: Vec<N> = vals.iter().map(|&x| f(x).unwrap()).collect();
    let as_mp = |v: &[N]| {
        let mut p = MP::zero();
        for (i, c) in v.iter().enumerate() {
            p.add_term(&c.dy().unwrap(), v.len() - 1 - i);
        }
        p
    };
    let w = as_mp(&want);
    if !w.is_zero() {
        ctx.distinct(w.hash() ^ s.dy().unwrap().m.iter_u64_digits().next().unwrap_or(0) ^ rng_tag(N::NAME));
    }
    ctx.sample(|| format!("{}: {:?} {} {}", N::NAME, vals, if dividing { "/" } else { "*" }, s));
    let p = Polynomial { terms: vals.clone() };
    let r = ctx.op("Polynomial */ scalar", || if dividing { p.own() / s } else { p.own() * s });
    same(ctx, "Polynomial */ scalar", r, &w);
    let r = ctx.op("Polynomial *=/= scalar", || { let mut x = p.own(); if dividing { x /= s } else { x *= s }; x });
    same(ctx, "Polynomial *=/= scalar", r, &w);
    let gap = *ctx.rng.pick(&[1usize, 7, 1 << 40]);
    let map: BTreeMap<usize, N> = vals.iter().enumerate().map(|(i, c)| ((vals.len() - 1 - i) * gap, *c)).collect();
    let sw = MP { t: w.t.iter().map(|(d, c)| (d * gap, c.clone())).collect() };
    let p = SparsePolynomial { terms: map };
    let r = ctx.op("SparsePolynomial */ scalar", || if dividing { p.own() / s } else { p.own() * s });
    same(ctx, "SparsePolynomial */ scalar", r, &sw);
    let r = ctx.op("SparsePolynomial *=/= scalar", || { let mut x = p.own(); if dividing { x /= s } else { x *= s }; x });
    same(ctx, "SparsePolynomial *=/= scalar", r, &sw);
    if vals.len() >= 3 {
        let w = as_mp(&want[..3]);
        let p = QuadraticTrinomial::new([vals[0], vals[1], vals[2]]);
        let r = ctx.op("QuadraticTrinomial */ scalar", || if dividing { p.own() / s } else { p.own() * s });
        same(ctx, "QuadraticTrinomial */ scalar", r, &w);
        let r = ctx.op("QuadraticTrinomial *=/= scalar", || { let mut x = p.own(); if dividing { x /= s } else { x *= s }; x });
        same(ctx, "QuadraticTrinomial *=/= scalar", r, &w);
        let w = as_mp(&want[..2]);
        let p = LinearBinomial::new([vals[0], vals[1]]);
        let r = ctx.op("LinearBinomial */ scalar", || if dividing { p.own() / s } else { p.own() * s });
        same(ctx, "LinearBinomial */ scalar", r, &w);
        let r = ctx.op("LinearBinomial *=/= scalar", || { let mut x = p.own(); if dividing { x /= s } else { x *= s }; x });
        same(ctx, "LinearBinomial *=/= scalar", r, &w);
        let d = degree(&mut ctx.rng, usize::MAX);
        let mut w = MP::zero();
        w.add_term(&want[0].dy().unwrap(), d);
        let p = Monomial::new(vals[0], d);
        let r = ctx.op("Monomial */ scalar", || if dividing { p.own() / s } else { p.own() * s });
        same(ctx, "Monomial */ scalar", r, &w);
        let r = ctx.op("Monomial *=/= scalar", || { let mut x = p.own(); if dividing { x /= s } else { x *= s }; x });
        same(ctx, "Monomial *=/= scalar", r, &w);
    }
}

/// Floats of any magnitude: + and - round once per coefficient, * accumulates a bounded error.
fn floats(ctx: &mut Ctx) {
    let (la, lb) = (length(&mut ctx.rng, 40), length(&mut ctx.rng, 40));
    let any = |rng: &mut Rng, n: usize| -> Vec<f64> {
        (0..n)
            .map(|_| match rng.below(8) {
                0 => 0.0,
                1 => -0.0,
                2 => any_coef::<f64>(rng),
                3 => (rng.unit() - 0.5) * 10f64.powi(rng.range(-200, 200) as i32),
                _ => (rng.unit() - 0.5) * 2f64.powi(rng.range(-30, 30) as i32),
            })
            .collect()
    };
    let (a, b) = (any(&mut ctx.rng, la), any(&mut ctx.rng, lb));
    let n = la.max(lb);
    let at = |v: &[f64], d: usize| if d < v.len() { v[v.len() - 1 - d] } else { 0.0 };
    let (p, q) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
    ctx.sample(|| format!("{:?} , {:?}", a, b));
    if la > 0 && lb > 0 {
        ctx.distinct(rng_tag(&format!("{:?}{:?}", a, b)));
    }
    let sum: Vec<f64> = (0..n).map(|d| at(&a, d) + at(&b, d)).collect();
    let dif: Vec<f64> = (0..n).map(|d| at(&a, d) - at(&b, d)).collect();
    for (name, want, got) in [
        ("Polynomial + (any floats)", &sum, ctx.op("Polynomial + (any floats)", || p.own() + q.own())),
        ("Polynomial - (any floats)", &dif, ctx.op("Polynomial - (any floats)", || p.own() - q.own())),
        ("Polynomial -= & (any floats)", &dif, ctx.op("Polynomial -= & (any floats)", || { let mut x = p.own(); x -= &q; x })),
    ] {
        if let Some(g) = got {
            for d in 0..n.max(g.terms.len()) {
                let w = if d < n { want[d] } else { 0.0 };
                if w.is_finite() {
                    ctx.check(at(&g.terms, d) == w, || format!("{}: degree {} is {:e}, expected {:e}", name, d, at(&g.terms, d), w));
                }
            }
        }
    }
    // Products: keep magnitudes moderate.
    let moderate = |rng: &mut Rng, n: usize| -> Vec<f64> { (0..n).map(|_| if rng.chance(20) { 0.0 } else { (rng.unit() - 0.5) * 2f64.powi(rng.range(-60, 60) as i32) }).collect() };
    let (a, b) = (moderate(&mut ctx.rng, la), moderate(&mut ctx.rng, lb));
    let mut exact = MP::zero();
    let mut bound = MP::zero();
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            let t = x.dy().unwrap().mul(&y.dy().unwrap());
            let d = la - 1 - i + lb - 1 - j;
            exact.add_term(&t, d);
            bound.add_term(&t.abs(), d);
        }
    }
    let (p, q) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
    let sp = |v: &[f64]| SparsePolynomial { terms: v.iter().enumerate().map(|(i, c)| (v.len() - 1 - i, *c)).collect() };
    let (sp, sq) = (sp(&a), sp(&b));
    let results = [
        ("Polynomial * (any floats)", ctx.op("Polynomial * (any floats)", || &p * &q).map(|r| r.val())),
        ("SparsePolynomial * (any floats)", ctx.op("SparsePolynomial * (any floats)", || sp.clone() * &sq).map(|r| r.val())),
    ];
    let eps = Dy::int(4 + 2 * la.min(lb) as i128).mul(&Dy::pow2(-53));
    for (name, got) in results {
        match got {
            None => {}
            Some(Err(e)) => ctx.fail(format!("{}: {}", name, e)),
            Some(Ok(g)) => {
                let err = g.sub(&exact);
                for (d, e) in &err.t {
                    let lim = bound.get(*d).mul(&eps).add(&Dy::pow2(-900));
                    ctx.check(e.abs() <= lim, || format!("{}: degree {} is off by {:e}, allowed {:e}; {:?} * {:?}", name, d, e.approx(), lim.approx(), a, b));
                }
            }
        }
    }
}

/// Long operands over Z/n, where the model is cheap.
fn linear(ctx: &mut Ctx) {
    let top = 11 + ctx.rng.usize(6);
    let len = |rng: &mut Rng| match rng.below(3) {
        0 => rng.usize(50),
        1 => ((1usize << (8 + rng.usize(top - 8))) + rng.usize(5)) - 2,
        _ => rng.usize(1 << top),
    };
    let la = len(&mut ctx.rng);
    let lb = if ctx.rng.chance(20) { la } else { len(&mut ctx.rng) };
    let mut gen = |l: usize| -> Vec<i64> { (0..l).map(|_| if ctx.rng.chance(20) { 0 } else { ctx.rng.range(-1000, 1000) }).collect() };
    let (a, b) = (gen(la), gen(lb));
    let few: Vec<i64> = gen(3);
    let c = 1 + ctx.rng.range(0, 100);
    ctx.distinct(rng::mix((la as u64) << 32 | lb as u64));
    ctx.sample(|| format!("i64: lengths {} and {}", la, lb));
    ctx.max("operand length", la.max(lb) as u64);
    let at = |v: &[i64], d: usize| if d < v.len() { v[v.len() - 1 - d] } else { 0 };
    let m = la.max(lb);
    let make = |f: &dyn Fn(usize) -> i64, n: usize| -> Vec<i64> { (0..n).rev().map(f).collect() };
    let sum = make(&|d| at(&a, d) + at(&b, d), m);
    let dif = make(&|d| at(&a, d) - at(&b, d), m);
    let neg = make(&|d| -at(&a, d), la);
    let times = make(&|d| at(&a, d) * c, la);
    let over = make(&|d| at(&a, d) / c, la);
    let product = make(&|d| (0..few.len()).map(|i| if i <= d { at(&few, i) * at(&a, d - i) } else { 0 }).sum(), la + 2);
    let (p, q, f) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() }, Polynomial { terms: few.clone() });
    let sp = |v: &[i64]| SparsePolynomial { terms: v.iter().enumerate().map(|(i, c)| (v.len() - 1 - i, *c)).collect::<BTreeMap<_, _>>() };
    let un = |s: SparsePolynomial<i64>| {
        let top = s.terms.keys().next_back().map_or(0, |d| d + 1);
        let mut v = vec![0; top];
        for (d, c) in s.terms {
            v[top - 1 - d] = c;
        }
        Polynomial { terms: v }
    };
    let (sa, sb, sf) = (sp(&a), sp(&b), sp(&few));
    let all = [
        ("Polynomial +", &sum, ctx.op("long Polynomial +", || p.own() + q.own())),
        ("Polynomial +=", &sum, ctx.op("long Polynomial +=", || { let mut x = p.own(); x += q.own(); x })),
        ("Polynomial -", &dif, ctx.op("long Polynomial -", || p.own() - q.own())),
        ("Polynomial - &", &dif, ctx.op("long Polynomial - &", || p.own() - &q)),
        ("Polynomial -=", &dif, ctx.op("long Polynomial -=", || { let mut x = p.own(); x -= q.own(); x })),
        ("Polynomial -= &", &dif, ctx.op("long Polynomial -= &", || { let mut x = p.own(); x -= &q; x })),
        ("-Polynomial", &neg, ctx.op("long -Polynomial", || -p.own())),
        ("Polynomial * scalar", &times, ctx.op("long Polynomial * scalar", || p.own() * c)),
        ("Polynomial *= scalar", &times, ctx.op("long Polynomial *= scalar", || { let mut x = p.own(); x *= c; x })),
        ("Polynomial / scalar", &over, ctx.op("long Polynomial / scalar", || p.own() / c)),
        ("Polynomial /= scalar", &over, ctx.op("long Polynomial /= scalar", || { let mut x = p.own(); x /= c; x })),
        ("Polynomial * few", &product, ctx.op("long Polynomial *", || &p * &f)),
        ("few * Polynomial", &product, ctx.op("long Polynomial *", || &f * &p)),
        ("Sparse +", &sum, ctx.op("long Sparse +", || sa.clone() + sb.clone()).map(un)),
        ("Sparse +=", &sum, ctx.op("long Sparse +=", || { let mut x = sa.clone(); x += sb.clone(); x }).map(un)),
        ("Sparse -", &dif, ctx.op("long Sparse -", || sa.clone() - sb.clone()).map(un)),
        ("Sparse -=", &dif, ctx.op("long Sparse -=", || { let mut x = sa.clone(); x -= sb.clone(); x }).map(un)),
        ("Sparse - Polynomial", &dif, ctx.op("long Sparse - Polynomial", || sa.clone() - q.own()).map(un)),
        ("-Sparse", &neg, ctx.op("long -Sparse", || -sa.clone()).map(un)),
        ("Sparse * scalar", &times, ctx.op("long Sparse * scalar", || sa.clone() * c).map(un)),
        ("Sparse *= scalar", &times, ctx.op("long Sparse *= scalar", || { let mut x = sa.clone(); x *= c; x }).map(un)),
        ("Sparse / scalar", &over, ctx.op("long Sparse / scalar", || sa.clone() / c).map(un)),
        ("Sparse /= scalar", &over, ctx.op("long Sparse /= scalar", || { let mut x = sa.clone(); x /= c; x }).map(un)),
        ("Sparse * few", &product, ctx.op("long Sparse *", || sa.borrow_mul(&sf)).map(un)),
        ("few * Sparse", &product, ctx.op("long Sparse *", || sf.borrow_mul(&sa)).map(un)),
    ];
    for (name, want, got) in all {
        let Some(got) = got else {
            ctx.fail(format!("{} panicked on lengths {} and {}", name, la, lb));
            continue;
        };
        let n = want.len().max(got.terms.len());
        let bad = (0..n).find(|d| at(want, *d) != at(&got.terms, *d));
        ctx.check(bad.is_none(), || {
            let d = bad.unwrap();
            format!("{} on lengths {} and {}: {} at degree {}, expected {}", name, la, lb, at(&got.terms, d), d, at(want, d))
        });
    }
}

fn long(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[2u64, 3, 4, 5, 6, 7, 12, 97, 65537, 1_000_000_007]);
    set_modulus(n);
    let max = if ctx.thorough { 4200 } else { 2100 };
    let len = |rng: &mut Rng| match rng.below(4) {
        0 => rng.usize(40),
        1 => ((1usize << (4 + rng.usize(8))) + rng.usize(5)).saturating_sub(2).min(max),
        2 => rng.usize(400),
        _ => rng.usize(max),
    };
    let (la, lb) = (len(&mut ctx.rng), len(&mut ctx.rng));
    let mut gen = |l: usize| -> Vec<Zn> {
        if ctx.rng.bool() {
            gappy(&mut ctx.rng, l, Zn(0), |r| Zn(r.below(n)))
        } else {
            (0..l).map(|_| Zn(if ctx.rng.chance(25) { 0 } else { ctx.rng.below(n) })).collect()
        }
    };
    let (a, b) = (gen(la), gen(lb));
    ctx.distinct(rng::mix((la as u64) << 32 | lb as u64) ^ n);
    ctx.sample(|| format!("Z/{}: lengths {} and {}", n, la, lb));
    ctx.max("operand length", la.max(lb) as u64);
    let at = |v: &[Zn], d: usize| if d < v.len() { v[v.len() - 1 - d].0 } else { 0 };
    let mut want = vec![0u64; la + lb + 1];
    for i in 0..la {
        let x = at(&a, i);
        if x == 0 {
            continue;
        }
        for j in 0..lb {
            want[i + j] = (want[i + j] + (u128::from(x) * u128::from(at(&b, j)) % u128::from(n)) as u64) % n;
        }
    }
    let (p, q) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
    let m = la.max(lb);
    let sum: Vec<u64> = (0..m).map(|d| (at(&a, d) + at(&b, d)) % n).collect();
    let dif: Vec<u64> = (0..m).map(|d| (at(&a, d) + n - at(&b, d)) % n).collect();
    let sp = |v: &[Zn]| SparsePolynomial { terms: v.iter().enumerate().map(|(i, c)| (v.len() - 1 - i, *c)).collect::<BTreeMap<_, _>>() };
    let un = |s: SparsePolynomial<Zn>| {
        let top = s.terms.keys().next_back().map_or(0, |d| d + 1);
        let mut v = vec![Zn(0); top];
        for (d, c) in s.terms {
            v[top - 1 - d] = c;
        }
        Polynomial { terms: v }
    };
    let (sa, sb) = (sp(&a), sp(&b));
    let form = ctx.rng.below(4);
    let mut res = vec![
        ("Z/n Polynomial *", &want, ctx.op("Z/n Polynomial *", || &p * &q)),
        match form {
            0 => ("Z/n Polynomial * owned", &want, ctx.op("Z/n Polynomial * owned", || p.own() * q.own())),
            1 => ("Z/n Polynomial * &", &want, ctx.op("Z/n Polynomial * &", || p.own() * &q)),
            2 => ("Z/n &Polynomial *", &want, ctx.op("Z/n &Polynomial *", || &p * q.own())),
            _ => ("Z/n Polynomial *= owned", &want, ctx.op("Z/n Polynomial *= owned", || { let mut x = p.own(); x *= q.own(); x })),
        },
        if form < 2 {
            ("Z/n Polynomial - &", &dif, ctx.op("Z/n Polynomial - &", || p.own() - &q))
        } else {
            ("Z/n Polynomial -= owned", &dif, ctx.op("Z/n Polynomial -= owned", || { let mut x = p.own(); x -= q.own(); x }))
        },
        ("Z/n Sparse +=", &sum, ctx.op("Z/n Sparse +=", || { let mut x = sa.clone(); x += sb.clone(); x }).map(un)),
        ("Z/n Sparse -=", &dif, ctx.op("Z/n Sparse -=", || { let mut x = sa.clone(); x -= sb.clone(); x }).map(un)),
        ("Z/n Polynomial *=", &want, ctx.op("Z/n Polynomial *=", || { let mut x = p.own(); x *= &q; x })),
        ("Z/n Polynomial +", &sum, ctx.op("Z/n Polynomial +", || p.own() + q.own())),
        ("Z/n Polynomial +=", &sum, ctx.op("Z/n Polynomial +=", || { let mut x = p.own(); x += q.own(); x })),
        ("Z/n Polynomial -", &dif, ctx.op("Z/n Polynomial -", || p.own() - q.own())),
        ("Z/n Polynomial -= &", &dif, ctx.op("Z/n Polynomial -= &", || { let mut x = p.own(); x -= &q; x })),
        ("Z/n Sparse +", &sum, ctx.op("Z/n Sparse +", || sa.clone() + sb.clone()).map(un)),
        ("Z/n Sparse -", &dif, ctx.op("Z/n Sparse -", || sa.clone() - sb.clone()).map(un)),
        ("Z/n Sparse - dense", &dif, ctx.op("Z/n Sparse - dense", || sa.clone() - q.own()).map(un)),
    ];
    if la * lb < 200_000 {
        res.push(match form {
            0 => ("Z/n Sparse * &", &want, ctx.op("Z/n Sparse * &", || sa.clone() * &sb).map(un)),
            1 => ("Z/n Sparse *", &want, ctx.op("Z/n Sparse *", || sa.clone() * sb.clone()).map(un)),
            2 => ("Z/n Sparse *=", &want, ctx.op("Z/n Sparse *=", || { let mut x = sa.clone(); x *= &sb; x }).map(un)),
            _ => ("Z/n Sparse borrow_mul", &want, ctx.op("Z/n Sparse borrow_mul", || sa.borrow_mul(&sb)).map(un)),
        });
    }
    for (name, want, got) in res {
        if let Some(g) = got {
            let top = want.len().max(g.terms.len());
            for d in 0..top {
                let w = want.get(d).copied().unwrap_or(0);
                if at(&g.terms, d) != w {
                    ctx.fail(format!("{}: modulus {}, lengths {} and {}: degree {} is {}, expected {}", name, n, la, lb, d, at(&g.terms, d), w));
                    break;
                }
            }
            ctx.add("oracle comparisons", top as u64);
        }
    }
}

/// A history of operators on one value, so that results are operands again.
fn history<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let mut m = MP::zero();
    let mut p = Polynomial::<N> { terms: vec![] };
    let mut s = SparsePolynomial::<N> { terms: BTreeMap::new() };
    let mut log = String::new();
    let steps = 4 + ctx.rng.usize(24);
    for _ in 0..steps {
        let n = length(&mut ctx.rng, 24);
        let bits = (N::BITS / 4).max(1);
        let o = match ctx.rng.below(8) {
            0 => m.clone(),
            1 => m.neg(),
            2 => MP::constant(Dy::one()),
            _ => gen_dense::<N>(&mut ctx.rng, n, bits, 0),
        };
        let kind = ctx.rng.below(9);
        let (w, ok) = match kind {
            0 | 1 => (m.add(&o), true),
            2 | 3 => (m.sub(&o), true),
            4 => (m.mul(&o), m.abs().mul(&o.abs()).fits::<N>() && m.degree().unwrap_or(0) + o.degree().unwrap_or(0) < 400),
            5 => (m.neg(), true),
            6 => (MP::zero(), true),
            7 => (m.scale(&Dy::int(2)), true),
            _ => (m.shl(1), m.degree().unwrap_or(0) < 400),
        };
        if !ok || !w.abs().fits::<N>() || !representable::<N>(&o) || (kind < 2 || kind > 3) && has_min::<N>(&o) {
            continue;
        }
        let (dp, dq) = (dense::<N>(&o, &mut ctx.rng), sparse::<N>(&o, &mut ctx.rng));
        log.push_str(&format!("{}({}); ", ["+", "+=", "-", "-=", "*", "neg", "self-self", "*2", "<<1"][kind as usize], o.show()));
        let two = N::one() + N::one();
        let r = ctx.op("history step", || {
            let (p, s) = (p.clone(), s.clone());
            match kind {
                0 => (p + dp.clone(), s + dq.clone()),
                1 => { let (mut p, mut s) = (p, s); p += dp.clone(); s += dq.clone(); (p, s) }
                2 => (p - dp.clone(), s - dq.clone()),
                3 => { let (mut p, mut s) = (p, s); p -= &dp; s -= dq.clone(); (p, s) }
                4 => (p * &dp, s * &dq),
                5 => (-p, -s),
                6 => (p.clone() - &p, s.clone() - s),
                7 => (p * two, s * two),
                _ => (p << 1, s << 1),
            }
        });
        let Some((np, ns)) = r else { return };
        m = w;
        same(ctx, &format!("history {}", log), Some(np.clone()), &m);
        same(ctx, &format!("history {}", log), Some(ns.clone()), &m);
        p = np;
        s = ns;
    }
    ctx.distinct(m.hash() ^ rng_tag(&log));
    ctx.sample(|| format!("{}: {}", N::NAME, log));
}

/// Complex coefficients.
fn complex(ctx: &mut Ctx) {
    let (la, lb) = (length(&mut ctx.rng, 24), length(&mut ctx.rng, 24));
    let mut gen = |l: usize| -> Vec<Complex<i64>> {
        (0..l)
            .map(|_| if ctx.rng.chance(25) { Complex::new(0, 0) } else { Complex::new(ctx.rng.range(-1000, 1000), ctx.rng.range(-2, 2)) })
            .collect()
    };
    let (a, b) = (gen(la), gen(lb));
    ctx.distinct(rng_tag(&format!("{:?}{:?}", a, b)));
    ctx.sample(|| format!("{:?} , {:?}", a, b));
    let at = |v: &[Complex<i64>], d: usize| if d < v.len() { v[v.len() - 1 - d] } else { Complex::new(0, 0) };
    let m = la.max(lb);
    let sum: Vec<_> = (0..m).map(|d| at(&a, d) + at(&b, d)).collect();
    let dif: Vec<_> = (0..m).map(|d| at(&a, d) - at(&b, d)).collect();
    let mut prod = vec![Complex::new(0, 0); la + lb + 1];
    for i in 0..la {
        for j in 0..lb {
            prod[i + j] += at(&a, i) * at(&b, j);
        }
    }
    let (p, q) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
    for (name, want, got) in [
        ("Complex +", &sum, ctx.op("Complex +", || p.own() + q.own())),
        ("Complex -", &dif, ctx.op("Complex -", || p.own() - &q)),
        ("Complex *", &prod, ctx.op("Complex *", || &p * &q)),
    ] {
        if let Some(g) = got {
            for d in 0..want.len().max(g.terms.len()) {
                let w = want.get(d).copied().unwrap_or(Complex::new(0, 0));
                ctx.check(at(&g.terms, d) == w, || format!("{}: degree {}", name, d));
            }
        }
    }
}

fn s_add(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, add(ctx));
}
fn s_sub(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, sub(ctx));
}
fn s_sub_fixed(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, sub_fixed(ctx));
}
fn s_mul(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, mul(ctx));
}
fn s_scalar(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, scalar(ctx));
}
fn s_history(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, history(ctx));
}

fn main() {
    run::main(Spec {
        id: "C01",
        rule: "Operands are drawn per coefficient type (independent, equal, opposite, cancelling in part, zero; stored leading and interior zeros added at random; lengths 0 to about 2000) within the range where the result is representable; the value of each result, read from public storage, is compared with exact arithmetic. Non-trivial: both operands non-zero (scalar: result non-zero); distinct by operand values and type.",
        assumptions: &[
            "Integer products are only judged where the sum of absolute values of the partial products is in range; coefficient-wise operations where the result is in range.",
            "NaN and infinite coefficients are not explored.",
        ],
        sections: vec![
            Section { name: "add", quick: 42_000, thorough: 1_400_000, f: s_add },
            Section { name: "sub", quick: 32_000, thorough: 960_000, f: s_sub },
            Section { name: "sub_fixed", quick: 42_000, thorough: 1_400_000, f: s_sub_fixed },
            Section { name: "mul", quick: 28_000, thorough: 840_000, f: s_mul },
            Section { name: "scalar", quick: 42_000, thorough: 1_400_000, f: s_scalar },
            Section { name: "floats", quick: 12_000, thorough: 300_000, f: floats },
            Section { name: "long", quick: 1_200, thorough: 8_000, f: long },
            Section { name: "linear", quick: 240, thorough: 4_000, f: linear },
            Section { name: "history", quick: 12_000, thorough: 400_000, f: s_history },
            Section { name: "complex", quick: 6_000, thorough: 200_000, f: complex },
        ],
        known: vec![],
    })
}
