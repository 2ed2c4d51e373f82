//! C18: sparse and monomial operations cost memory and work by terms, not by degree.
use rustnomial::{
    Derivable, Evaluable, FreeSizePolynomial, Integrable, Monomial, MutablePolynomial, SizedPolynomial, SparsePolynomial, Term,
};
use std::collections::BTreeMap;
use std::fmt::Display;
use std::ops::Neg;
use std::str::FromStr;
use vh::alloc::measure;
use vh::ring::{counted, set_modulus, Count, Zn};
use vh::rng::{hash_bytes, mix};
use vh::*;

/// An operation with its memory measured: it may request 8 KiB, and 2 KiB per unit of work.
fn lean<T>(ctx: &mut Ctx, name: &str, work: usize, about: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
    let (r, u) = measure(|| guarded(f));
    ctx.bump(name);
    ctx.max("most bytes requested by one operation", u.requested);
    ctx.max("bytes requested per unit of work", u.requested / work.max(1) as u64);
    let limit = 8192 + 2048 * work as u64;
    ctx.check(u.requested <= limit && u.refused == 0, || format!("{} requested {} bytes ({} expected at most, {} refused): {}", name, u.requested, limit, u.refused, about()));
    match r {
        Ok(x) => Some(x),
        Err(m) => {
            ctx.fail(format!("{} panicked: {}: {}", name, m, about()));
            None
        }
    }
}

fn nonzero<N: Coef>(rng: &mut Rng, bits: u32) -> Dy {
    let c = coef::<N>(rng, bits, 0);
    if c.is_zero() {
        Dy::one()
    } else {
        c
    }
}

/// The bits of the degrees to use: from, to. Mostly too many to be walked through, sometimes so few
/// that only the memory would tell.
fn magnitude(rng: &mut Rng) -> (usize, usize) {
    if rng.chance(30) {
        let low = 15 + rng.usize(25);
        (low, low + 1 + rng.usize(3))
    } else {
        (40, 41 + rng.usize(20))
    }
}

/// Few terms, at least one with a degree of at least 2^low; degrees are below 2^top, or little above.
fn wide<N: Coef>(rng: &mut Rng, n: usize, (low, top): (usize, usize), bits: u32) -> MP {
    let mut p = MP::zero();
    let d = (1usize << (low + rng.usize(top - low))) + rng.usize(1 << low.min(20));
    p.add_term(&nonzero::<N>(rng, bits), d);
    for _ in 1..n {
        let d = match rng.below(4) {
            0 => rng.usize(4),
            1 => rng.usize(1 << low.min(20)),
            2 => d - 1 - rng.usize(3),
            _ => rng.usize(1 << top),
        };
        if p.get(d).is_zero() {
            p.add_term(&nonzero::<N>(rng, bits), d);
        }
    }
    p
}

fn stored<N: Coef>(p: &MP) -> SparsePolynomial<N> {
    SparsePolynomial { terms: p.t.iter().map(|(d, c)| (*d, nz::<N>(c))).collect() }
}

fn show(p: &MP) -> String {
    p.show()
}

fn sparse_ops<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: MutablePolynomial<N> + FreeSizePolynomial<N> + Evaluable<N> + Display + FromStr,
{
    let n = 1 + ctx.rng.usize(8);
    let m = 1 + ctx.rng.usize(8);
    let bits = (N::BITS / 3).max(1);
    let bound = magnitude(&mut ctx.rng);
    let a = wide::<N>(&mut ctx.rng, n, bound, bits);
    let b = if ctx.rng.chance(25) { a.clone() } else { wide::<N>(&mut ctx.rng, m, bound, bits) };
    let (mut s, mut t) = (stored::<N>(&a), stored::<N>(&b));
    if ctx.rng.chance(30) {
        // Stored zeros.
        for x in [&mut s, &mut t] {
            for _ in 0..ctx.rng.usize(4) {
                let d = ctx.rng.usize(1 << bound.1);
                x.terms.entry(d).or_insert_with(N::zero);
            }
        }
    }
    let (s, t) = (s, t);
    let (n, m) = (s.terms.len(), t.terms.len());
    let about = || format!("{} and {} over {}", show(&a), show(&b), N::NAME);
    ctx.distinct(a.hash() ^ mix(b.hash()) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(about);
    if a.abs().add(&b.abs()).fits::<N>() {
        let r = lean(ctx, "Sparse+", n + m, &about, || s.clone() + t.clone());
        same(ctx, "sum", r, &a.add(&b));
        let mut x = s.clone();
        if lean(ctx, "Sparse+=", n + m, &about, || x += t.clone()).is_some() {
            same(ctx, "sum", Some(x), &a.add(&b));
        }
    }
    if a.abs().mul(&b.abs()).fits::<N>() {
        let r = lean(ctx, "Sparse*", n * m, &about, || s.clone() * t.clone());
        same(ctx, "product", r, &a.mul(&b));
        let r = lean(ctx, "Sparse.borrow_mul", n * m, &about, || s.borrow_mul(&t));
        same(ctx, "product", r, &a.mul(&b));
        let r = lean(ctx, "Sparse*&", n * m, &about, || s.clone() * &t);
        same(ctx, "product", r, &a.mul(&b));
        let mut x = s.clone();
        if lean(ctx, "Sparse*=&", n * m, &about, || x *= &t).is_some() {
            same(ctx, "product", Some(x), &a.mul(&b));
        }
        let mut x = s.clone();
        if lean(ctx, "Sparse*=", n * m, &about, || x *= t.clone()).is_some() {
            same(ctx, "product", Some(x), &a.mul(&b));
        }
    }
    // Powers: of few terms, and of one term with a large exponent.
    let k = ctx.rng.usize(4);
    let mut w = MP::constant(Dy::one());
    let mut size = MP::constant(Dy::one());
    for _ in 0..k {
        w = w.mul(&a);
        size = size.mul(&a.abs());
    }
    if size.fits::<N>() && n <= 5 {
        let r = lean(ctx, "Sparse.pow", 16 + 8 * size.t.len() * n, &about, || s.pow(k));
        same(ctx, "power", r, &w);
    }
    let d = 1 + ctx.rng.usize(8);
    let e = (1usize << (30 + ctx.rng.usize(28))) + ctx.rng.usize(100);
    let x = SparsePolynomial { terms: BTreeMap::from([(d, N::one())]) };
    let r = lean(ctx, "Sparse.pow of one term", 256, &about, || x.pow(e));
    same(ctx, &format!("(x^{})^{}", d, e), r, &MP::term(Dy::one(), d * e));
    // Scalars.
    let c = nonzero::<N>(&mut ctx.rng, bits);
    let cn: N = nz(&c);
    if a.abs().scale(&c.abs()).fits::<N>() {
        let r = lean(ctx, "Sparse*scalar", n, &about, || s.clone() * cn);
        same(ctx, "scaled", r, &a.scale(&c));
        let mut x = s.clone();
        if lean(ctx, "Sparse*=scalar", n, &about, || x *= cn).is_some() {
            let r = lean(ctx, "Sparse/scalar", n, &about, || x.clone() / cn);
            same(ctx, "scaled and divided", r, &a);
            same(ctx, "scaled", Some(x.clone()), &a.scale(&c));
            if lean(ctx, "Sparse/=scalar", n, &about, || x /= cn).is_some() {
                same(ctx, "scaled and divided", Some(x), &a);
            }
        }
    }
    // Shifts.
    let k = if ctx.rng.bool() { ctx.rng.range(0, i64::from(i32::MAX)) } else { ctx.rng.range(0, 1 << bound.0.min(30)) } as i32;
    let (left, right) = (a.shl(k as usize), a.shr(k as usize));
    let r = lean(ctx, "Sparse<<", n, &about, || s.clone() << k);
    same(ctx, "shifted", r, &left);
    let r = lean(ctx, "Sparse>>", n, &about, || s.clone() >> k);
    same(ctx, "shifted", r, &right);
    let r = lean(ctx, "Sparse<<negative", n, &about, || s.clone() << -k);
    same(ctx, "shifted", r, &right);
    let r = lean(ctx, "Sparse>>negative", n, &about, || s.clone() >> -k);
    same(ctx, "shifted", r, &left);
    let mut x = s.clone();
    if lean(ctx, "Sparse<<=", n, &about, || x <<= k).is_some() {
        same(ctx, "shifted", Some(x.clone()), &left);
        if lean(ctx, "Sparse<<=negative", n, &about, || x <<= -k).is_some() {
            same(ctx, "shifted back", Some(x), &a);
        }
    }
    let mut x = s.clone();
    if lean(ctx, "Sparse>>=", n, &about, || x >>= k).is_some() {
        same(ctx, "shifted", Some(x.clone()), &right);
        if lean(ctx, "Sparse>>=negative", n, &about, || x >>= -k).is_some() {
            same(ctx, "shifted back", Some(x), &right.shl(k as usize));
        }
    }
    let mut x = s.clone();
    if lean(ctx, "Sparse.set_to_zero", n, &about, || x.set_to_zero()).is_some() {
        same(ctx, "set to zero", Some(x), &MP::zero());
    }
    let x = lean(ctx, "Sparse.clone", n, &about, || s.clone());
    same(ctx, "clone", x, &a);
    // Observers.
    let top_degree = a.degree().unwrap();
    let probe = if ctx.rng.bool() { top_degree } else { ctx.rng.usize(usize::MAX) };
    let want = a.get(probe);
    if let Some(x) = lean(ctx, "Sparse.term_with_degree", n, &about, || s.term_with_degree(probe)) {
        let ok = match x {
            Term::ZeroTerm => want.is_zero(),
            Term::Term(c, d) => d == probe && c.dy() == Some(want.clone()) && !want.is_zero(),
        };
        ctx.check(ok, || format!("term_with_degree({}): {:?}: {}", probe, x, about()));
    }
    if let Some(x) = lean(ctx, "Sparse.terms_as_vec", n, &about, || s.terms_as_vec()) {
        ctx.check(from_terms(&x) == Ok(a.clone()), || format!("terms_as_vec: {:?}: {}", x, about()));
    }
    if let Some(x) = lean(ctx, "Sparse.ordered_term_iter", n, &about, || s.ordered_term_iter().collect::<Vec<_>>()) {
        ctx.check(from_terms(&x) == Ok(a.clone()), || format!("ordered_term_iter: {:?}: {}", x, about()));
    }
    if let Some(x) = lean(ctx, "Sparse.==", n + m, &about, || (s == t, s == s.clone(), s.is_zero(), s.degree())) {
        ctx.check(x == (a == b, true, false, rustnomial::Degree::Num(top_degree)), || format!("(==, reflexive ==, is_zero, degree): {:?}: {}", x, about()));
    }
    // Changes.
    let mut x = s.clone();
    let c: N = N::one();
    let mut w = a.clone();
    w.add_term(&Dy::one(), probe);
    if representable::<N>(&w) {
        if lean(ctx, "Sparse.try_add_term", n, &about, || x.try_add_term(c, probe)).is_some() {
            same(ctx, "with a term added", Some(x), &w);
        }
        let mut x = s.clone();
        if lean(ctx, "Sparse.add_term", n, &about, || x.add_term(c, probe)).is_some() {
            same(ctx, "with a term added", Some(x), &w);
        }
    }
    let mut x = s.clone();
    if lean(ctx, "Sparse.try_sub_term", n, &about, || x.try_sub_term(nz::<N>(&a.get(top_degree)), top_degree)).is_some() {
        same(ctx, "with the leading term subtracted", Some(x), &a.sub(&MP::term(a.get(top_degree), top_degree)));
    }
    let terms: Vec<(N, usize)> = s.ordered_term_iter().collect();
    let r = lean(ctx, "Sparse.from_terms", n, &about, || SparsePolynomial::from_terms(&terms));
    same(ctx, "from_terms", r, &a);
    // Text.
    textual::<N, _>(ctx, "Sparse", &s, &a, &about);
    // Evaluation at points whose powers stay in range.
    for point in [0i128, 1, -1] {
        if point < 0 && !N::SIGNED {
            continue;
        }
        if !N::fits(&a.abs().t.values().fold(Dy::zero(), |s, c| s.add(c))) {
            continue;
        }
        let want = a.t.iter().fold(Dy::zero(), |s, (d, c)| match (point, d % 2) {
            (0, _) if *d > 0 => s,
            (-1, 1) => s.sub(c),
            _ => s.add(c),
        });
        let x: N = nz_or_zero(point);
        if let Some(r) = lean(ctx, "Sparse.eval", n, &about, || s.eval(x)) {
            ctx.check(r.dy() == Some(want.clone()), || format!("at {}: {:?}, expected {}: {}", point, r, MP::constant(want.clone()).show(), about()));
        }
    }
}

fn eq_dy<N: Coef>(x: &N, c: &Dy) -> bool {
    x.dy().as_ref() == Some(c)
}

fn textual<N: Coef, P: Display + FromStr + PolyT<N>>(ctx: &mut Ctx, kind: &str, p: &P, v: &MP, about: &dyn Fn() -> String) {
    let n = v.t.len();
    if let Some(x) = lean(ctx, &format!("{} to text", kind), n, about, || p.to_string()) {
        ctx.check(x == text::canonical::<N>(v), || format!("text {:.300}: {}", x, about()));
        let r = lean(ctx, &format!("{} from text", kind), n + x.len() / 16, about, || x.parse::<P>().ok());
        same(ctx, "parsed", r.flatten(), v);
    }
}

fn nz_or_zero<N: Coef>(x: i128) -> N {
    if x == 0 {
        N::zero()
    } else {
        nz(&Dy::int(x))
    }
}

fn signed_ops<N: Coef + Neg<Output = N>>(ctx: &mut Ctx) {
    let bits = (N::BITS / 4).max(1);
    let bound = magnitude(&mut ctx.rng);
    let (n, m) = (1 + ctx.rng.usize(6), 1 + ctx.rng.usize(6));
    let a = wide::<N>(&mut ctx.rng, n, bound, bits);
    let b = if ctx.rng.chance(25) { a.clone() } else { wide::<N>(&mut ctx.rng, m, bound, bits) };
    let (s, t) = (stored::<N>(&a), stored::<N>(&b));
    let (n, m) = (a.t.len(), b.t.len());
    ctx.distinct(a.hash() ^ mix(b.hash()) ^ hash_bytes(N::NAME.as_bytes()));
    {
        let about = || format!("{} and {} over {}", show(&a), show(&b), N::NAME);
        ctx.sample(about);
        let r = lean(ctx, "-Sparse", n, &about, || -s.clone());
        same(ctx, "negated", r, &a.neg());
        if a.abs().add(&b.abs()).fits::<N>() {
            let r = lean(ctx, "Sparse-", n + m, &about, || s.clone() - t.clone());
            same(ctx, "difference", r, &a.sub(&b));
            let mut x = s.clone();
            if lean(ctx, "Sparse-=", n + m, &about, || x -= t.clone()).is_some() {
                same(ctx, "difference", Some(x), &a.sub(&b));
            }
        }
        let k = 1 + ctx.rng.usize(8);
        let e = gen_dense::<N>(&mut ctx.rng, k, bits, 0);
        if a.abs().add(&e.abs()).fits::<N>() {
            let d = dense::<N>(&e, &mut ctx.rng);
            let r = lean(ctx, "Sparse-Polynomial", n + d.terms.len(), &about, || s.clone() - d.clone());
            same(ctx, &format!("less {}", e.show()), r, &a.sub(&e));
        }
    }
    // Division with a quotient of few terms.
    let bits = (N::BITS / 8).max(1);
    let mut d = wide::<N>(&mut ctx.rng, 1 + m % 4, (bound.0, bound.1.min(55)), bits);
    let top = d.degree().unwrap();
    d.add_term(&Dy::one().sub(&d.get(top)), top);
    let k = 1 + ctx.rng.usize(4);
    let q = gen_sparse::<N>(&mut ctx.rng, k, 1 << bound.1.min(50), bits, 0);
    let mut r = MP::zero();
    for _ in 0..ctx.rng.usize(4) {
        let e = ctx.rng.usize(top);
        if r.get(e).is_zero() {
            r.add_term(&nonzero::<N>(&mut ctx.rng, bits), e);
        }
    }
    let p = q.mul(&d).add(&r);
    let size = q.abs().mul(&d.abs()).mul(&d.abs()).add(&r.abs());
    if !size.fits::<N>() || !p.fits::<N>() {
        ctx.bump("skipped: division out of range");
        return;
    }
    // Cancellation may make the division take more steps than the quotient has terms; not so here.
    let (s, t) = (stored::<N>(&p), stored::<N>(&d));
    let work = p.t.len() + (q.t.len() + 1) * d.t.len() * 4;
    let about = || format!("{} by {} over {}", show(&p), show(&d), N::NAME);
    if let Some((x, y)) = lean(ctx, "Sparse.div_mod", work, &about, || s.div_mod(&t)) {
        same(ctx, "quotient", Some(x), &q);
        same(ctx, "remainder", Some(y), &r);
    }
    let x = lean(ctx, "Sparse%", work, &about, || s.clone() % t.clone());
    same(ctx, "remainder", x, &r);
    let mut x = s.clone();
    if lean(ctx, "Sparse%=", work, &about, || x %= t.clone()).is_some() {
        same(ctx, "remainder", Some(x), &r);
    }
}

fn calculus<N: Coef>(ctx: &mut Ctx)
where
    SparsePolynomial<N>: Derivable<N> + Integrable<N, SparsePolynomial<N>> + FreeSizePolynomial<N> + Evaluable<N>,
    Monomial<N>: Derivable<N> + Integrable<N, SparsePolynomial<N>>,
{
    // Degrees which are exact in the type, and as large as it allows.
    let n = 1 + ctx.rng.usize(5);
    let mut big = MP::zero();
    let limit = if N::FLOAT { 62 } else { (N::BITS as usize - 1).min(62) };
    for _ in 0..n {
        let e = ctx.rng.usize(limit);
        let mut d = 1usize << e;
        if e < N::BITS as usize {
            d += ctx.rng.usize(2);
        }
        let c = if ctx.rng.bool() || N::SIGNED == false { Dy::one() } else { Dy::int(-1) };
        if big.get(d).is_zero() && d > 0 {
            big.add_term(&c, d);
        }
    }
    let derived = MP { t: big.t.iter().map(|(d, c)| (d - 1, c.mul(&Dy::int(*d as i128)))).collect() };
    if !representable::<N>(&big) || !representable::<N>(&derived) || big.t.keys().any(|d| N::from_dy(&Dy::int(*d as i128)).is_none()) {
        ctx.bump("skipped: degrees not representable");
        return;
    }
    let n = big.t.len();
    let about = || format!("{} over {}", show(&big), N::NAME);
    ctx.distinct(big.hash() ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(about);
    let s = stored::<N>(&big);
    let r = lean(ctx, "Sparse.derivative", n, &about, || s.derivative());
    same(ctx, "derivative", r, &derived);
    let (d, c) = big.t.iter().next_back().unwrap();
    let m = Monomial::new(nz::<N>(c), *d);
    let r = lean(ctx, "Monomial.derivative", 1, &about, || m.derivative());
    same(ctx, "derivative", r, &MP::term(c.mul(&Dy::int(*d as i128)), d - 1));
    let s = stored::<N>(&derived);
    if let Some(i) = lean(ctx, "Sparse.integral", n, &about, || s.integral()) {
        same(ctx, "integral", Some(i.inner().clone()), &big);
        let r = lean(ctx, "Integral.replace_c", n, &about, || i.replace_c(N::one()));
        let mut w = big.clone();
        w.add_term(&Dy::one(), 0);
        same(ctx, "integral with a constant", r, &w);
        if !N::FLOAT || n < 20 {
            let want = big.t.values().fold(Dy::zero(), |s, c| s.add(c));
            if let Some(x) = lean(ctx, "Integral.eval", n, &about, || i.eval(N::zero(), N::one())) {
                // Unsigned sums might go below zero on the way; the coefficients are all one then.
                ctx.check(x.dy() == Some(want.clone()), || format!("integral from 0 to 1: {:?}: {}", x, about()));
            }
        }
    }
    let (d, c) = derived.t.iter().next_back().unwrap();
    let m = Monomial::new(nz::<N>(c), *d);
    if let Some(i) = lean(ctx, "Monomial.integral", 1, &about, || m.integral()) {
        let (d, c) = big.t.iter().next_back().unwrap();
        same(ctx, "integral", Some(i.inner().clone()), &MP::term(c.clone(), *d));
    }
}

trait Full: Coef {
    fn mpow(m: &Monomial<Self>, e: usize) -> Monomial<Self>;
    fn term(s: &str) -> Option<Term<Self>>;
}
macro_rules! full {
    ($($t:ident)*) => {$(impl Full for $t { fn mpow(m: &Monomial<$t>, e: usize) -> Monomial<$t> { m.pow(e) } fn term(s: &str) -> Option<Term<$t>> { s.parse().ok() } })*};
}
full!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);

fn monomials<N: Full>(ctx: &mut Ctx)
where
    Monomial<N>: MutablePolynomial<N> + Evaluable<N> + Display + FromStr,
{
    let bits = (N::BITS / 3).max(1);
    let (c, k) = (nonzero::<N>(&mut ctx.rng, bits), nonzero::<N>(&mut ctx.rng, bits));
    let low = if ctx.rng.chance(30) { 16 + ctx.rng.usize(20) } else { 40 };
    let mut exponent = || (1usize << (low + ctx.rng.usize(21))) + ctx.rng.usize(99);
    let (d, e) = (exponent(), exponent());
    let (m, o) = (Monomial::new(nz::<N>(&c), d), Monomial::new(nz::<N>(&k), e));
    let about = || format!("{:?} and {:?}", m, o);
    ctx.distinct(MP::term(c.clone(), d).hash() ^ mix(MP::term(k.clone(), e).hash()) ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(about);
    if N::fits(&c.abs().mul(&k.abs())) {
        let r = lean(ctx, "Monomial*&", 1, &about, || m.clone() * &o);
        same(ctx, "product", r, &MP::term(c.mul(&k), d + e));
        let r = lean(ctx, "Monomial*", 1, &about, || m.clone() * o.clone());
        same(ctx, "product", r, &MP::term(c.mul(&k), d + e));
        let mut x = m.clone();
        if lean(ctx, "Monomial*=", 1, &about, || x *= o.clone()).is_some() {
            same(ctx, "product", Some(x), &MP::term(c.mul(&k), d + e));
        }
        let mut x = m.clone();
        if lean(ctx, "Monomial*=&", 1, &about, || x *= &o).is_some() {
            same(ctx, "product", Some(x), &MP::term(c.mul(&k), d + e));
        }
        let r = lean(ctx, "Monomial*scalar", 1, &about, || m.clone() * nz::<N>(&k));
        same(ctx, "scaled", r.clone(), &MP::term(c.mul(&k), d));
        if let Some(x) = r {
            let r = lean(ctx, "Monomial/scalar", 1, &about, || x / nz::<N>(&k));
            same(ctx, "scaled and divided", r, &MP::term(c.clone(), d));
        }
        let mut x = m.clone();
        if lean(ctx, "Monomial*=scalar", 1, &about, || x *= nz::<N>(&k)).is_some() {
            if lean(ctx, "Monomial/=scalar", 1, &about, || x /= nz::<N>(&k)).is_some() {
                same(ctx, "scaled and divided", Some(x), &MP::term(c.clone(), d));
            }
        }
    }
    let p = (1usize << (30 + ctx.rng.usize(28))) + ctx.rng.usize(100);
    let x = Monomial::new(if N::SIGNED { N::zero() - N::one() } else { N::one() }, 7);
    let r = lean(ctx, "Monomial.pow", 1, &about, || N::mpow(&x, p));
    same(ctx, &format!("power {}", p), r, &MP::term(if N::SIGNED && p % 2 == 1 { Dy::int(-1) } else { Dy::one() }, 7 * p));
    let n = ctx.rng.range(0, i64::from(i32::MAX)) as i32;
    let v = MP::term(c.clone(), d);
    let (left, right) = (v.shl(n as usize), v.shr(n as usize));
    let r = lean(ctx, "Monomial<<", 1, &about, || m.clone() << n);
    same(ctx, "shifted", r, &left);
    let r = lean(ctx, "Monomial>>", 1, &about, || m.clone() >> n);
    same(ctx, "shifted", r, &right);
    let mut x = m.clone();
    if lean(ctx, "Monomial<<=", 1, &about, || x <<= n).is_some() {
        same(ctx, "shifted", Some(x), &left);
    }
    let mut x = m.clone();
    if lean(ctx, "Monomial>>=", 1, &about, || x >>= n).is_some() {
        same(ctx, "shifted", Some(x), &right);
    }
    let mut x = Monomial::zero();
    if lean(ctx, "Monomial.try_add_term", 1, &about, || x.try_add_term(nz::<N>(&c), d)).is_some() {
        same(ctx, "with a term added", Some(x), &v);
    }
    let found = lean(ctx, "Monomial.observers", 1, &about, || {
        (m == o, m == m.clone(), m.is_zero(), m.degree(), m.term_with_degree(d) == Term::new(m.coefficient, d), m.term_with_degree(d - 1) == Term::ZeroTerm)
    });
    let want = (c == k && d == e, true, false, rustnomial::Degree::Num(d), true, true);
    ctx.check(found == Some(want), || format!("observers of {:?}: {:?}", m, found));
    if let Some(t) = lean(ctx, "Monomial.terms", 1, &about, || (m.terms_as_vec(), m.ordered_term_iter().collect::<Vec<_>>())) {
        ctx.check(from_terms(&t.0) == Ok(v.clone()) && from_terms(&t.1) == Ok(v.clone()), || format!("terms {:?}: {}", t, about()));
    }
    let mut x = m.clone();
    if lean(ctx, "Monomial.try_sub_term", 1, &about, || x.try_sub_term(nz::<N>(&c), d)).is_some() {
        same(ctx, "with itself subtracted", Some(x), &MP::zero());
    }
    textual::<N, _>(ctx, "Monomial", &m, &v, &about);
    let t = text::canonical::<N>(&v);
    if let Some(r) = lean(ctx, "Term from text", 1, &about, || N::term(&t)) {
        let ok = match &r {
            Some(Term::Term(x, y)) => *y == d && eq_dy(x, &c),
            _ => false,
        };
        ctx.check(ok, || format!("term {:?}: {}", r, about()));
    }
    for point in [0i128, 1, -1] {
        if point < 0 && !N::SIGNED {
            continue;
        }
        let want = match (point, d % 2) {
            (0, _) => Dy::zero(),
            (-1, 1) => c.neg(),
            _ => c.clone(),
        };
        if let Some(r) = lean(ctx, "Monomial.eval", 1, &about, || m.eval(nz_or_zero::<N>(point))) {
            ctx.check(r.dy() == Some(want), || format!("at {}: {:?}: {}", point, r, about()));
        }
    }
}

/// Coefficient operations, counted: with all degrees multiplied by a large factor, the same
/// operation has to do the same work.
fn work(ctx: &mut Ctx) {
    set_modulus(*ctx.rng.pick(&[2u64, 3, 7, 101, 1009]));
    let m = vh::ring::modulus();
    // Many terms, for the operations whose cost is bounded below.
    let many = ctx.rng.chance(15);
    let gen = |rng: &mut Rng| -> BTreeMap<usize, Zn> {
        let n = 1 + rng.usize(if many { 120 } else { 8 });
        let top = if many { 1000 } else { *rng.pick(&[4usize, 12, 40]) };
        (0..n).map(|_| (rng.usize(top), Zn(1 + rng.below(m - 1)))).collect()
    };
    let (a, b) = (gen(&mut ctx.rng), gen(&mut ctx.rng));
    let c = Zn(ctx.rng.below(m));
    let scale = |p: &BTreeMap<usize, Zn>, k: usize| SparsePolynomial { terms: p.iter().map(|(d, c)| (d * k, *c)).collect::<BTreeMap<_, _>>() };
    let k = (1usize << (20 + ctx.rng.usize(34))) + ctx.rng.usize(1000);
    let k = k.min((1 << 52) - 1);
    let e = ctx.rng.usize(5);
    let which = ctx.rng.below(if many { 6 } else { 9 });
    const NAMES: [&str; 9] = ["+", "-", "*", "*=", "scalar", "neg", "div_mod", "%", "pow"];
    let run = |k: usize| -> Result<(Vec<SparsePolynomial<Zn>>, Count), String> {
        let (s, t) = (scale(&a, k), scale(&b, k));
        guarded(|| {
            counted(1 << 22, || match which {
                0 => vec![s.clone() + t.clone()],
                1 => vec![s.clone() - t.clone()],
                2 => vec![s.borrow_mul(&t)],
                3 => {
                    let mut x = s.clone();
                    x *= &t;
                    vec![x]
                }
                4 => vec![s.clone() * c],
                5 => vec![-s.clone()],
                6 => {
                    let (q, r) = s.div_mod(&t);
                    vec![q, r]
                }
                7 => vec![s.clone() % t.clone()],
                _ => vec![s.pow(e)],
            })
        })
    };
    let what = format!("{} on {:?} and {:?} over Z/{}", NAMES[which as usize], a, b, m);
    ctx.sample(|| format!("{}, degrees times {}", what, k));
    ctx.distinct(hash_bytes(what.as_bytes()) ^ mix(k as u64));
    let ((x, small), (y, large)) = match (run(1), run(k)) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => {
            ctx.fail(format!("{}: {:?} and with degrees times {}: {:?}", what, x.map(|_| ()), k, y.map(|_| ())));
            return;
        }
    };
    ctx.bump(NAMES[which as usize]);
    ctx.add("coefficient operations counted", small.muls + small.other + large.muls + large.other);
    let ok = large.muls <= 2 * small.muls + 64 && large.other <= 2 * small.other + 256;
    ctx.check(ok, || format!("{}: {:?}, with degrees times {}: {:?}", what, small, k, large));
    // What the operations may cost, by terms.
    let (n, m2) = (a.len() as u64, b.len() as u64);
    let bound = match which {
        0 | 1 | 5 => Some(8 * (n + m2) + 16),
        2 | 3 => Some(8 * n * m2 + 16),
        4 => Some(8 * n + 16),
        _ => None,
    };
    if let Some(bound) = bound {
        ctx.check(large.muls + large.other <= bound, || format!("{}: {:?} operations, expected at most {}", what, large, bound));
    }
    // And the results have to correspond.
    let live = |p: &SparsePolynomial<Zn>, k: usize| -> Vec<(usize, Zn)> { p.terms.iter().filter(|(_, c)| c.0 != 0).map(|(d, c)| (d * k, *c)).collect() };
    let ok = x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| live(x, k) == live(y, 1));
    ctx.check(ok, || format!("{}: {}, with degrees times {}: {}", what, brief(&x), k, brief(&y)));
}

fn s_sparse(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, sparse_ops(ctx));
}
fn s_signed(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(signed, i, signed_ops(ctx));
}
fn s_calculus(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(calculus, i, calculus(ctx));
}
fn s_monomials(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, monomials(ctx));
}

fn main() {
    run::main(Spec {
        id: "C18",
        rule: "Every operation on sparse polynomials and monomials with up to eight terms and degrees from 2^40 to 2^61 is run with its memory requests measured (8 KiB plus 2 KiB per unit of work allowed) and its result compared with an exact model; a single case may use 25 s of CPU time, so loops over degrees do not pass. With counted coefficients, an operation whose degrees are all multiplied by a factor of up to 2^54 has to do the same number of coefficient operations. Non-trivial: every case; distinct by operands and type.",
        assumptions: &["Root finding is not included.", "Degrees do not overflow; derivatives and integrals have degrees exact in the coefficient type.", "Divisions have quotients of few terms."],
        sections: vec![
            Section { name: "sparse", quick: 42_000, thorough: 1_400_000, f: s_sparse },
            Section { name: "signed", quick: 40_000, thorough: 1_200_000, f: s_signed },
            Section { name: "calculus", quick: 36_000, thorough: 1_200_000, f: s_calculus },
            Section { name: "monomials", quick: 42_000, thorough: 1_400_000, f: s_monomials },
            Section { name: "work", quick: 90_000, thorough: 2_700_000, f: work },
        ],
        known: vec![],
    })
}
