//! C12: shifts multiply and divide by powers of x.
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::ops::{Shl, ShlAssign, Shr, ShrAssign};
use vh::rng::{hash_bytes, mix};
use vh::*;

/// The value after a left shift by n (a right shift if negative), if its degree is representable.
fn model(p: &MP, n: i64) -> Option<MP> {
    if n >= 0 {
        p.degree().unwrap_or(0).checked_add(n as usize)?;
        Some(p.shl(n as usize))
    } else {
        Some(p.shr(n.unsigned_abs() as usize))
    }
}

/// All four forms which mean a left shift by n.
fn judge<N: Coef, P>(ctx: &mut Ctx, p: &P, v: &MP, n: i64)
where
    P: PolyT<N> + Shl<i32, Output = P> + Shr<i32, Output = P> + ShlAssign<i32> + ShrAssign<i32>,
{
    let Some(want) = model(v, n) else { return };
    let what = |f: &str| format!("{} {} by {} of {}", P::T, f, n, brief(p));
    if let Ok(k) = i32::try_from(n) {
        let r = ctx.op(&format!("{} <<", P::T), || p.own() << k);
        same(ctx, &what("<< (left shift)"), r, &want);
        let mut q = p.own();
        let r = ctx.op(&format!("{} <<=", P::T), || {
            q <<= k;
            q
        });
        same(ctx, &what("<<= (left shift)"), r, &want);
    }
    if let Ok(k) = i32::try_from(-n) {
        let r = ctx.op(&format!("{} >>", P::T), || p.own() >> k);
        same(ctx, &what(">> (left shift)"), r, &want);
        let mut q = p.own();
        let r = ctx.op(&format!("{} >>=", P::T), || {
            q >>= k;
            q
        });
        same(ctx, &what(">>= (left shift)"), r, &want);
    }
    if n != 0 {
        ctx.bump(if n < 0 { "right shifts" } else { "left shifts" });
    }
}

/// A shift amount, left positive.
fn amount(rng: &mut Rng, p: &MP, wide: bool) -> i64 {
    let top = p.degree().unwrap_or(0).min(1 << 31) as i64;
    let low = p.t.keys().next().copied().unwrap_or(0).min(1 << 31) as i64;
    match rng.below(12) {
        0 => 0,
        1 => -1,
        2 => 1,
        3 => -top + rng.range(-2, 2),
        4 => -low + rng.range(-2, 2),
        5 | 6 => -rng.range(0, top + 3),
        7 => rng.range(0, 40),
        8 => -*rng.pick(&[(1i64 << 31) - 1, 1 << 31, (1 << 31) - 2, 1 << 30, 65536]),
        9 if wide => *rng.pick(&[(1i64 << 31) - 1, 1 << 31, (1 << 31) - 2, 1 << 30, 65536]),
        10 if wide => (rng.u64() & 0xffff_ffff) as i64 - (1 << 31),
        _ => rng.range(-12, 12),
    }
    .clamp(-(1 << 31), 1 << 31)
}

fn dense_case<N: Coef>(ctx: &mut Ctx) {
    let n = length(&mut ctx.rng, 800);
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let s = scale_of::<N>(&mut ctx.rng);
    let mut p = gen_dense::<N>(&mut ctx.rng, n, bits, s);
    if ctx.rng.chance(20) {
        // No low terms.
        p = p.shl(ctx.rng.usize(9));
    }
    let mut k = amount(&mut ctx.rng, &p, false);
    if ctx.rng.chance(1) && ctx.rng.chance(20) {
        k = 1 << ctx.rng.range(12, 21);
    }
    if !p.is_zero() && k != 0 {
        ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()) ^ (k as u64).rotate_left(9));
    }
    ctx.sample(|| format!("{}: {} by {}", N::NAME, p.show(), k));
    let d = dense::<N>(&p, &mut ctx.rng);
    judge(ctx, &d, &p, k);
    let s = sparse::<N>(&p, &mut ctx.rng);
    judge(ctx, &s, &p, k);
}

/// Long polynomials and long shifts over i64.
fn long_case(ctx: &mut Ctx) {
    let l = long::size(&mut ctx.rng, 16);
    let v = long::list(&mut ctx.rng, l, 1000);
    let k = match ctx.rng.below(4) {
        0 => long::size(&mut ctx.rng, 18) as i64,
        1 => l as i64 - 2 + ctx.rng.range(0, 4),
        _ => ctx.rng.usize(l + 2) as i64,
    };
    let k = if ctx.rng.chance(30) { k } else { -k } as i32;
    let want: Vec<i64> = if k >= 0 {
        if v.is_empty() { vec![] } else { std::iter::repeat(0).take(k as usize).chain(v.iter().copied()).collect() }
    } else {
        v.get(k.unsigned_abs() as usize..).unwrap_or(&[]).to_vec()
    };
    ctx.distinct(mix(l as u64) ^ mix(k as u64).rotate_left(5));
    ctx.max("length", l as u64);
    let what = format!("length {} shifted left by {}", l, k);
    ctx.sample(|| what.clone());
    fn all<P>(ctx: &mut Ctx, what: &str, p: &P, k: i32, want: &[i64])
    where
        P: long::Coefficients + Own + std::ops::Shl<i32, Output = P> + std::ops::Shr<i32, Output = P> + std::ops::ShlAssign<i32> + std::ops::ShrAssign<i32>,
    {
        let r = ctx.op("long <<", || p.own() << k);
        long::judge(ctx, || format!("<<, {}", what), r, want);
        let r = ctx.op("long <<=", || { let mut q = p.own(); q <<= k; q });
        long::judge(ctx, || format!("<<=, {}", what), r, want);
        let r = ctx.op("long >>", || p.own() >> -k);
        long::judge(ctx, || format!(">>, {}", what), r, want);
        let r = ctx.op("long >>=", || { let mut q = p.own(); q >>= -k; q });
        long::judge(ctx, || format!(">>=, {}", what), r, want);
    }
    let zeros = padding(&mut ctx.rng);
    all(ctx, &what, &long::dense(&v, zeros), k, &want);
    let stored = ctx.rng.bool();
    all(ctx, &what, &long::sparse(&v, stored), k, &want);
}

fn wide_case<N: Coef>(ctx: &mut Ctx) {
    let n = ctx.rng.usize(6);
    let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
    let max = *ctx.rng.pick(&[usize::MAX, usize::MAX, 1 << 34, 1 << 32, 1 << 31]);
    let mut p = gen_sparse::<N>(&mut ctx.rng, n, max, bits, 0);
    if ctx.rng.chance(30) {
        let d = *ctx.rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, usize::MAX - (1 << 31), 1 << 63]);
        p = MP::term(Dy::one(), d);
    }
    let k = amount(&mut ctx.rng, &p, true);
    if !p.is_zero() && k != 0 {
        ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()) ^ (k as u64).rotate_left(9));
    }
    ctx.max("degree", p.degree().unwrap_or(0) as u64);
    ctx.sample(|| format!("{}: {} by {}", N::NAME, p.show(), k));
    // Without stored zeros, which might have no degree after the shift.
    let mut terms: std::collections::BTreeMap<usize, N> = p.t.iter().map(|(d, c)| (*d, nz(c))).collect();
    if ctx.rng.bool() {
        let d = ctx.rng.usize(50);
        terms.entry(d).or_insert_with(N::zero);
    }
    judge(ctx, &SparsePolynomial { terms }, &p, k);
    let m = p.t.iter().next_back().map_or(MP::zero(), |(d, c)| MP::term(c.clone(), *d));
    let q = <Monomial<N> as PolyT<N>>::build(&m, &mut ctx.rng).unwrap();
    judge(ctx, &q, &m, k);
    let k = amount(&mut ctx.rng, &m, true);
    judge(ctx, &q, &m, k);
}

/// Sequences of assigning shifts on one value.
fn history<N: Coef, P>(ctx: &mut Ctx, p: P, v: &MP, room: usize)
where
    P: PolyT<N> + Shl<i32, Output = P> + Shr<i32, Output = P> + ShlAssign<i32> + ShrAssign<i32>,
{
    let mut q = p;
    let mut v = v.clone();
    let mut log = format!("{}", brief(&q));
    for _ in 0..1 + ctx.rng.usize(12) {
        let mut k = ctx.rng.range(-9, 9);
        if ctx.rng.chance(5) {
            k = amount(&mut ctx.rng, &v, false).min(60);
        }
        if v.degree().unwrap_or(0) > room {
            k = -k.abs();
        }
        let Ok(k) = i32::try_from(k) else { continue };
        let Some(w) = model(&v, i64::from(k)) else { continue };
        v = w;
        let form = ctx.rng.below(4);
        log.push_str(&format!(" ; form {} by {}", form, k));
        let old = q.clone();
        let r = ctx.op("shift in a history", move || {
            let mut q = old;
            match form {
                0 => q <<= k,
                1 if k != i32::MIN => q >>= -k,
                2 if k != i32::MIN => q = q >> -k,
                _ => q = q << k,
            }
            q
        });
        let Some(r) = r else {
            ctx.fail(log);
            return;
        };
        same(ctx, &log, Some(r.clone()), &v);
        q = r;
    }
}

fn histories<N: Coef>(ctx: &mut Ctx) {
    let n = length(&mut ctx.rng, 60);
    let p = gen_dense::<N>(&mut ctx.rng, n, N::BITS.min(20), 0);
    ctx.sample(|| format!("{}: {}", N::NAME, p.show()));
    ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()));
    let d = dense::<N>(&p, &mut ctx.rng);
    history(ctx, d, &p, 400);
    let s = sparse::<N>(&p, &mut ctx.rng);
    history(ctx, s, &p, 400);
    let m = p.t.iter().next_back().map_or(MP::zero(), |(d, c)| MP::term(c.clone(), *d));
    let q = <Monomial<N> as PolyT<N>>::build(&m, &mut ctx.rng).unwrap();
    history(ctx, q, &m, 400);
}

fn fixed<N: Coef>(ctx: &mut Ctx) {
    let mut p = MP::zero();
    for d in 0..3 {
        if ctx.rng.chance(75) {
            p.add_term(&any_coef::<N>(&mut ctx.rng).dy().unwrap(), d);
        }
    }
    let k = match ctx.rng.below(6) {
        0..=3 => ctx.rng.below(5) as u32,
        4 => *ctx.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 256, 257, 258]),
        _ => ctx.rng.u64() as u32,
    };
    ctx.distinct(p.hash() ^ hash_bytes(N::NAME.as_bytes()) ^ u64::from(k).rotate_left(9));
    ctx.sample(|| format!("{}: {} >> {}", N::NAME, p.show(), k));
    let t = <QuadraticTrinomial<N> as PolyT<N>>::build(&p, &mut ctx.rng).unwrap();
    let want = p.shr(k as usize);
    let r = ctx.op("QuadraticTrinomial >>", || t.own() >> k);
    same(ctx, &format!("{:?} >> {}", t, k), r, &want);
    let mut q = t.clone();
    let r = ctx.op("QuadraticTrinomial >>=", || {
        q >>= k;
        q
    });
    same(ctx, &format!("{:?} >>= {}", t, k), r, &want);
    let p = MP { t: p.t.range(0..2).map(|(d, c)| (*d, c.clone())).collect() };
    let b = <LinearBinomial<N> as PolyT<N>>::build(&p, &mut ctx.rng).unwrap();
    let want = p.shr(k as usize);
    let r = ctx.op("LinearBinomial >>", || b.own() >> k);
    same(ctx, &format!("{:?} >> {}", b, k), r, &want);
    let mut q = b.clone();
    let r = ctx.op("LinearBinomial >>=", || {
        q >>= k;
        q
    });
    same(ctx, &format!("{:?} >>= {}", b, k), r, &want);
    // Dense and monomial shifted by the same amount.
    if k <= i32::MAX as u32 {
        let d = dense::<N>(&p, &mut ctx.rng);
        judge(ctx, &Polynomial { terms: d.terms }, &p, -i64::from(k));
    }
}

fn s_dense(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, dense_case(ctx));
}
fn s_wide(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, wide_case(ctx));
}
fn s_history(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, histories(ctx));
}
fn s_fixed(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, fixed(ctx));
}

fn main() {
    run::main(Spec {
        id: "C12",
        rule: "All forms of shifting (<<, <<=, >>, >>= with positive and negative amounts) are run on polynomials in any stored representation, with amounts around the lowest and highest degree and up to the most negative 32-bit amount, and compared with moving the model's degrees; sequences of shifts on one value likewise. Non-trivial: non-zero value and amount; distinct by value, amount and coefficient type.",
        assumptions: &["Degrees after the shift are representable and, for dense polynomials, fit in memory.", "Zeros are not stored at degrees which the shift would take out of range."],
        sections: vec![
            Section { name: "dense", quick: 84_000, thorough: 2_500_000, f: s_dense },
            Section { name: "wide", quick: 140_000, thorough: 4_000_000, f: s_wide },
            Section { name: "history", quick: 42_000, thorough: 1_200_000, f: s_history },
            Section { name: "fixed", quick: 84_000, thorough: 2_000_000, f: s_fixed },
            Section { name: "long", quick: 600, thorough: 20_000, f: long_case },
        ],
        known: vec![],
    })
}
