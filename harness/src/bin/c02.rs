//! C02: raising to a power equals repeated multiplication.
use rustnomial::{Monomial, Polynomial, SparsePolynomial};
use std::collections::BTreeMap;
use vh::ring::{counted, modulus, set_modulus, Ct, Zn};
use vh::rng::{hash_bytes, mix};
use vh::*;

fn model_pow(p: &MP, e: usize) -> MP {
    let mut r = MP::constant(Dy::one());
    for _ in 0..e {
        r = r.mul(p);
    }
    r
}

fn exact<N: Coef>(ctx: &mut Ctx) {
    // Shrink until the result is in range.
    let mut e = match ctx.rng.below(10) {
        0 => 0,
        1 => 1,
        2..=5 => 2 + ctx.rng.usize(8),
        6..=8 => 2 + ctx.rng.usize(31),
        _ => 2 + ctx.rng.usize(62),
    };
    let mut len = match ctx.rng.below(8) {
        0 => 0,
        1..=3 => 1,
        4..=5 => 2,
        6 => 3,
        _ => 1 + ctx.rng.usize(12),
    };
    let mut bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32 / (e as u32).max(1).min(8);
    let (p, w) = loop {
        let s = if N::FLOAT && ctx.rng.chance(30) { ctx.rng.range(-2, 2) } else { 0 };
        let mut p = gen_dense::<N>(&mut ctx.rng, len, bits, s);
        if ctx.rng.chance(30) {
            // Single terms reach higher exponents.
            let c = p.t.values().next_back().cloned().unwrap_or_else(Dy::one);
            p = MP::term(c, ctx.rng.usize(5));
        }
        let b = model_pow(&p.abs(), e);
        if b.fits::<N>() && p.abs().fits::<N>() {
            let w = model_pow(&p, e);
            break (p, w);
        }
        if bits > 1 {
            bits -= 1 + bits / 4;
            bits = bits.max(1);
        } else if len > 1 {
            len -= 1;
        } else {
            e = e * 2 / 3;
        }
    };
    if e >= 2 && !p.is_zero() {
        ctx.distinct(p.hash() ^ mix(e as u64) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.max("exponent of a multi-term base", if p.t.len() > 1 { e as u64 } else { 0 });
    ctx.sample(|| format!("{}: ({})^{}", N::NAME, p.show(), e));
    let what = format!("({})^{}", p.show(), e);
    let d = dense::<N>(&p, &mut ctx.rng);
    let r = ctx.op("Polynomial.pow", || d.pow(e));
    same(ctx, &what, r, &w);
    let k = *ctx.rng.pick(&[1usize, 3, 1 << 30, 1 << 52]);
    let st = |p: &MP| MP { t: p.t.iter().map(|(d, c)| (d * k, c.clone())).collect() };
    if p.degree().unwrap_or(0).checked_mul(k).and_then(|x| x.checked_mul(e + 1)).map_or(false, |x| x < usize::MAX / 4) {
        let (sp, sw) = (st(&p), st(&w));
        // Stored zeros only where their degrees stay in range as well.
        let s = if k > 1 { SparsePolynomial { terms: sp.t.iter().map(|(d, c)| (*d, nz::<N>(c))).collect() } } else { sparse::<N>(&sp, &mut ctx.rng) };
        let r = ctx.op("SparsePolynomial.pow", || s.pow(e));
        same(ctx, &what, r, &sw);
    }
}

fn mono<N: Coef>(ctx: &mut Ctx)
where
    Monomial<N>: MonoPow<N>,
{
    let unit = ctx.rng.chance(45);
    let (c, e, deg);
    if unit {
        c = match ctx.rng.below(3) {
            0 => Dy::zero(),
            1 if N::SIGNED => Dy::int(-1),
            _ => Dy::one(),
        };
        e = match ctx.rng.below(6) {
            0 => ctx.rng.usize(4),
            1 => (1usize << 31) - 2 + ctx.rng.usize(4),
            2 => (1usize << 32) - 2 + ctx.rng.usize(5),
            3 => (1usize << ctx.rng.usize(63)) + ctx.rng.usize(3),
            4 => ctx.rng.u64() as usize >> ctx.rng.usize(60),
            _ => usize::MAX - ctx.rng.usize(3),
        };
    } else {
        let bits = 1 + ctx.rng.below(u64::from(N::BITS)) as u32;
        let c0 = coef::<N>(&mut ctx.rng, bits, if N::FLOAT { 0 } else { 0 });
        let mut e0 = ctx.rng.usize(66);
        while !N::fits(&c0.abs().pow(e0)) {
            e0 -= 1;
        }
        // The largest exponents in range are of interest.
        if ctx.rng.chance(30) && c0.log2_up() > 1 {
            while N::fits(&c0.abs().pow(e0 + 1)) {
                e0 += 1;
            }
        }
        c = c0;
        e = e0;
    }
    let room = usize::MAX / e.max(1);
    deg = match ctx.rng.below(4) {
        0 => 0,
        1 => room,
        2 => ctx.rng.usize(9).min(room),
        _ => degree(&mut ctx.rng, room),
    };
    let want = if e == 0 {
        MP::constant(Dy::one())
    } else if unit {
        let v = if c.is_zero() || !c.is_neg() || e % 2 == 1 { c.clone() } else { Dy::one() };
        MP::term(v, deg * e)
    } else {
        MP::term(c.pow(e), deg * e)
    };
    let m = Monomial::new(nz::<N>(&c), deg);
    if e >= 2 {
        ctx.distinct(mix(e as u64) ^ mix(deg as u64).rotate_left(9) ^ MP::constant(c.clone()).hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.max("exponent of a single term", e as u64);
    ctx.sample(|| format!("{:?} ^ {}", m, e));
    let r = ctx.op("Monomial.pow", || m.mpow(e));
    same(ctx, &format!("{:?}.pow({})", m, e), r, &want);
    // A constant dense polynomial and a single-term sparse one, to the same power.
    let d = Polynomial { terms: vec![nz::<N>(&c)] };
    if deg == 0 || e == 0 {
        let r = ctx.op("constant Polynomial.pow", || d.pow(e));
        same(ctx, &format!("{:?}.pow({})", d, e), r, &MP::constant(want.get(deg * e)));
    }
    let s = SparsePolynomial { terms: BTreeMap::from([(deg, nz::<N>(&c))]) };
    let r = ctx.op("single-term SparsePolynomial.pow", || s.pow(e));
    same(ctx, &format!("{:?}.pow({})", s, e), r, &want);
}

/// Monomial::pow is bounded by a private trait.
trait MonoPow<N>: Sized {
    fn mpow(&self, e: usize) -> Monomial<N>;
}
macro_rules! mono_pow { ($($t:ty)*) => {$( impl MonoPow<$t> for Monomial<$t> { fn mpow(&self, e: usize) -> Monomial<$t> { self.pow(e) } } )*}; }
mono_pow!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);

/// Floats whose power is rounded.
fn floats(ctx: &mut Ctx) {
    let c = (1.0 + ctx.rng.unit()) * 2f64.powi(ctx.rng.range(-3, 3) as i32) * if ctx.rng.bool() { 1.0 } else { -1.0 };
    if ctx.rng.chance(30) {
        return float_pow::<f32>(ctx, c as f32, 100.0, 24);
    }
    float_pow::<f64>(ctx, c, 900.0, 53);
}

fn float_pow<N: Coef>(ctx: &mut Ctx, c: N, range: f64, digits: i64)
where
    Monomial<N>: MonoPow<N>,
{
    let lim = (range / (c.dy().unwrap().approx().abs().log2().abs() + 0.01)) as usize;
    let e = ctx.rng.usize(lim.min(4000).max(2));
    let exact = c.dy().unwrap().pow(e);
    let tol = exact.abs().mul(&Dy::int(4 + 2 * e as i128)).mul(&Dy::pow2(-digits)).add(&Dy::pow2(-1000));
    ctx.distinct(MP::constant(c.dy().unwrap()).hash() ^ mix(e as u64));
    ctx.sample(|| format!("{} ^ {}", c, e));
    let (md, sd) = (ctx.rng.usize(6), degree(&mut ctx.rng, usize::MAX / 4001));
    let m = Monomial::new(c, md);
    let d = Polynomial { terms: vec![c] };
    let s = SparsePolynomial { terms: BTreeMap::from([(sd, c)]) };
    for (name, deg, r) in [
        ("float Monomial.pow", md, ctx.op("float Monomial.pow", || m.mpow(e)).map(|r| r.val())),
        ("float Polynomial.pow", 0, ctx.op("float Polynomial.pow", || d.pow(e)).map(|r| r.val())),
        ("float SparsePolynomial.pow", sd, ctx.op("float SparsePolynomial.pow", || s.pow(e)).map(|r| r.val())),
    ] {
        match r {
            None => {}
            Some(Err(x)) => ctx.fail(format!("{} of {} to {}: {}", name, c, e, x)),
            Some(Ok(v)) => {
                ctx.check(v.t.keys().all(|d| *d == deg * e), || format!("{} of {} to {}: has other terms: {}", name, c, e, v.show()));
                let err = v.get(deg * e).sub(&exact).abs();
                ctx.check(err <= tol, || format!("{} of {} to {}: off by {:e}, allowed {:e}", name, c, e, err.approx(), tol.approx()));
            }
        }
    }
}

fn modpow(b: u64, mut e: usize) -> u64 {
    let n = u128::from(modulus());
    let (mut r, mut b) = (1 % n, u128::from(b) % n);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % n;
        }
        b = b * b % n;
        e >>= 1;
    }
    r as u64
}

fn zn_vec(s: &SparsePolynomial<Zn>) -> BTreeMap<usize, u64> {
    s.terms.iter().filter(|(_, c)| c.0 != 0).map(|(d, c)| (*d, c.0)).collect()
}
fn zn_dense(p: &Polynomial<Zn>) -> BTreeMap<usize, u64> {
    let n = p.terms.len();
    p.terms.iter().enumerate().filter(|(_, c)| c.0 != 0).map(|(i, c)| (n - 1 - i, c.0)).collect()
}

/// Rings of integers modulo n, with zero divisors and nilpotent elements; longer powers than fit integers.
fn rings(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[2u64, 3, 4, 6, 8, 9, 12, 97, 65537, 1_000_000_007]);
    set_modulus(n);
    let (len, e) = match ctx.rng.below(10) {
        0 => (1, ctx.rng.usize(300)),
        1..=2 => (1 + ctx.rng.usize(30), ctx.rng.usize(14)),
        3 => (1 + ctx.rng.usize(300), ctx.rng.usize(5)),
        _ => (1 + ctx.rng.usize(4), ctx.rng.usize(if ctx.thorough { 150 } else { 90 })),
    };
    let zeros = if ctx.rng.chance(20) { 80 } else { 20 };
    let a: Vec<u64> = (0..len).map(|_| if ctx.rng.chance(zeros) { 0 } else { ctx.rng.below(n) }).collect();
    let mut w = vec![1 % n];
    for _ in 0..e {
        let mut v = vec![0u64; w.len() + len];
        for (i, x) in w.iter().enumerate() {
            for (j, y) in a.iter().enumerate() {
                v[i + j] = (v[i + j] + (u128::from(*x) * u128::from(*y) % u128::from(n)) as u64) % n;
            }
        }
        while v.last() == Some(&0) {
            v.pop();
        }
        w = v;
    }
    let want: BTreeMap<usize, u64> = w.iter().enumerate().filter(|(_, c)| **c != 0).map(|(d, c)| (d, *c)).collect();
    ctx.distinct(hash_bytes(format!("{:?}{}{}", a, e, n).as_bytes()));
    ctx.sample(|| format!("Z/{}: {:?} (ascending) ^ {}", n, a, e));
    ctx.max("exponent of a multi-term base", e as u64);
    let mut terms: Vec<Zn> = a.iter().rev().map(|c| Zn(*c)).collect();
    for _ in 0..padding(&mut ctx.rng) {
        terms.insert(0, Zn(0));
    }
    let d = Polynomial { terms };
    if let Some(r) = ctx.op("Z/n Polynomial.pow", || d.pow(e)) {
        ctx.eq(&format!("Z/{} dense {:?} (ascending) ^ {}", n, a, e), &zn_dense(&r), &want);
    }
    let gap = *ctx.rng.pick(&[1usize, 2, 1 << 20]);
    let s = SparsePolynomial { terms: a.iter().enumerate().map(|(d, c)| (d * gap, Zn(*c))).collect() };
    let sw: BTreeMap<usize, u64> = want.iter().map(|(d, c)| (d * gap, *c)).collect();
    if let Some(r) = ctx.op("Z/n SparsePolynomial.pow", || s.pow(e)) {
        ctx.eq(&format!("Z/{} sparse {:?} (ascending, degrees times {}) ^ {}", n, a, gap, e), &zn_vec(&r), &sw);
    }
}

/// Results of thousands of terms modulo a prime, compared at random points.
fn long_case(ctx: &mut Ctx) {
    let n = 1_000_000_007u64;
    set_modulus(n);
    let max = if ctx.thorough { 4000usize } else { 2000 };
    let len = 2 + match ctx.rng.below(3) {
        0 => 0,
        1 => ctx.rng.usize(6),
        _ => ctx.rng.usize(max / 2 - 2),
    };
    let e = 2 + ctx.rng.usize(max / (len - 1) - 1);
    let zeros = *ctx.rng.pick(&[0u64, 30, 90]);
    let mut a: Vec<u64> = (0..len).map(|_| if ctx.rng.chance(zeros) { 0 } else { ctx.rng.below(n) }).collect();
    a[len - 1] = 1 + ctx.rng.below(n - 1);
    let m = |x: u64, y: u64| (u128::from(x) * u128::from(y) % u128::from(n)) as u64;
    ctx.distinct(mix(len as u64) ^ mix(e as u64) ^ a.iter().fold(0, |h, c| mix(h ^ c)));
    ctx.sample(|| format!("Z/{}: {} coefficients ^ {}", n, len, e));
    ctx.max("exponent of a multi-term base", e as u64);
    ctx.max("terms of a power", ((len - 1) * e) as u64);
    let points: Vec<u64> = (0..3).map(|_| ctx.rng.below(n)).collect();
    let judge = |ctx: &mut Ctx, name: &str, r: Option<BTreeMap<usize, u64>>| {
        let Some(r) = r else { return };
        let top = r.keys().next_back().copied();
        ctx.check(top == Some((len - 1) * e), || format!("{}: {} coefficients ^ {}: degree {:?}", name, len, e, top));
        for x in &points {
            // Descending degrees, as gaps.
            let (mut v, mut at) = (0, top.unwrap_or(0));
            for (d, c) in r.iter().rev() {
                v = (m(v, modpow(*x, at - d)) + c) % n;
                at = *d;
            }
            v = m(v, modpow(*x, at));
            let w = modpow(a.iter().rev().fold(0, |s, c| (m(s, *x) + c) % n), e);
            ctx.check(v == w, || format!("{}: {} coefficients ^ {}: {} at {}, expected {}", name, len, e, v, x, w));
        }
    };
    let terms: Vec<Zn> = std::iter::repeat(Zn(0)).take(padding(&mut ctx.rng)).chain(a.iter().rev().map(|c| Zn(*c))).collect();
    let d = Polynomial { terms };
    let r = ctx.op("long Polynomial.pow", || d.pow(e)).map(|r| zn_dense(&r));
    judge(ctx, "Polynomial", r);
    if (len - 1) * e <= 1000 {
        let s = SparsePolynomial { terms: a.iter().enumerate().map(|(d, c)| (d, Zn(*c))).collect() };
        let r = ctx.op("long SparsePolynomial.pow", || s.pow(e)).map(|r| zn_vec(&r));
        judge(ctx, "SparsePolynomial", r);
    }
}

/// The number of multiplications for a single-term base is logarithmic, for any exponent.
fn cost(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[7u64, 12, 97, 1_000_000_007]);
    set_modulus(n);
    let e = match ctx.rng.below(5) {
        0 => ctx.rng.usize(100),
        1 => usize::MAX - ctx.rng.usize(2),
        2 => (1usize << 32) + ctx.rng.usize(3),
        3 => 1usize << ctx.rng.usize(64),
        _ => ctx.rng.u64() as usize >> ctx.rng.usize(60),
    };
    let c = ctx.rng.below(n);
    let deg = degree(&mut ctx.rng, usize::MAX / e.max(1));
    let limit = 4 * (64 - (e as u64).leading_zeros() as u64) + 16;
    ctx.distinct(mix(e as u64) ^ mix(c) ^ mix(deg as u64));
    ctx.sample(|| format!("Z/{}: {}x^{} ^ {}", n, c, deg, e));
    ctx.max("exponent of a single term", e as u64);
    let want = modpow(c, e);
    let d = Polynomial { terms: vec![Zn(c)] };
    if let Some((r, k)) = ctx.op("counted Polynomial.pow", || counted(1_000_000, || d.pow(e))) {
        ctx.max("multiplications for one power", k.muls);
        ctx.check(k.muls <= limit, || format!("Polynomial [{}] ^ {}: {} multiplications", c, e, k.muls));
        let m: BTreeMap<usize, u64> = if want == 0 { BTreeMap::new() } else { BTreeMap::from([(0, want)]) };
        ctx.eq(&format!("Z/{} [{}]^{}", n, c, e), &zn_dense(&r), &m);
    }
    let s = SparsePolynomial { terms: BTreeMap::from([(deg, Zn(c))]) };
    if let Some((r, k)) = ctx.op("counted SparsePolynomial.pow", || counted(1_000_000, || s.pow(e))) {
        ctx.max("multiplications for one power", k.muls);
        ctx.check(k.muls <= limit, || format!("SparsePolynomial {}x^{} ^ {}: {} multiplications", c, deg, e, k.muls));
        let m: BTreeMap<usize, u64> = if want == 0 { BTreeMap::new() } else { BTreeMap::from([(deg * e, want)]) };
        ctx.eq(&format!("Z/{} {}x^{} ^ {}", n, c, deg, e), &zn_vec(&r), &m);
    }
    // Several terms: the number of products shows in the number of allocations.
    if ctx.rng.chance(4) {
        let e = 1500 + ctx.rng.usize(1500);
        let p = Polynomial { terms: vec![Zn(1), Zn(ctx.rng.below(n))] };
        if let Some((r, u)) = ctx.op("measured Polynomial.pow", || alloc::measure(|| p.pow(e))) {
            ctx.max("allocations for one power of a binomial", u.count);
            ctx.check(u.count <= 900, || format!("Polynomial {:?} ^ {}: {} allocations", p, e, u.count));
            ctx.check(r.terms.len() == e + 1 && r.terms[0].0 == 1, || format!("Polynomial {:?} ^ {}: {} coefficients", p, e, r.terms.len()));
            // x = 1.
            let v = r.terms.iter().fold(0u64, |s, c| (s + c.0) % n);
            ctx.eq("value of the power at 1", &v, &modpow((1 + p.terms[1].0) % n, e));
        }
    }
    // Counted floats: x^e as a dense polynomial has e + 1 coefficients.
    let small = ctx.rng.usize(3000);
    let x = Polynomial { terms: vec![Ct(1.0f64), Ct(0.0)] };
    if let Some((r, _)) = ctx.op("x.pow", || counted(400_000_000, || x.pow(small))) {
        ctx.check(
            r.terms.iter().rev().enumerate().all(|(i, c)| c.0 == if i == small { 1.0 } else { 0.0 }) && r.terms.len() > small,
            || format!("x ^ {}", small),
        );
    }
}

fn s_exact(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, exact(ctx));
}
fn s_mono(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, mono(ctx));
}

fn main() {
    run::main(Spec {
        id: "C02",
        rule: "Bases (zero, one or several terms, stored zeros added at random) and exponents are drawn so that the result is representable, including the largest such exponents and, for coefficients 0 and 1 and -1 and in Z/n, exponents up to the largest usize; the value of the power is compared with repeated exact multiplication, and multiplications of an instrumented coefficient are counted. Non-trivial: exponent at least 2; distinct by base, exponent and type.",
        assumptions: &["Integer powers are judged where the same power of the absolute values is in range, float powers where it is exact or, for single terms, within (2e+4) units of rounding."],
        sections: vec![
            Section { name: "exact", quick: 28_000, thorough: 700_000, f: s_exact },
            Section { name: "mono", quick: 56_000, thorough: 1_400_000, f: s_mono },
            Section { name: "floats", quick: 6_000, thorough: 200_000, f: floats },
            Section { name: "rings", quick: 3_000, thorough: 60_000, f: rings },
            Section { name: "cost", quick: 2_000, thorough: 30_000, f: cost },
            Section { name: "long", quick: 300, thorough: 3_000, f: long_case },
        ],
        known: vec![],
    })
}
