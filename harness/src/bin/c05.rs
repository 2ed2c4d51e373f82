//! C05: observers and equality depend only on the value, never on the representation.
use rustnomial::{
    Degree, Derivable, FreeSizePolynomial, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial,
    SizedPolynomial, SparsePolynomial, Term,
};
use vh::ring::{set_modulus, Zn};
use vh::rng::hash_bytes;
use vh::*;

/// Degrees worth looking up.
fn probes(rng: &mut Rng, v: &MP) -> Vec<usize> {
    let mut d = vec![0, 1, 2, 3, 4, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 63];
    for k in v.t.keys() {
        d.push(*k);
        d.push(k.wrapping_add(1));
        d.push(k.wrapping_sub(1));
        if d.len() > 60 {
            break;
        }
    }
    if let Some(top) = v.degree() {
        d.extend([top, top.wrapping_add(1), top.wrapping_add(2), top.wrapping_sub(1), top / 2]);
        for _ in 0..6 {
            d.push(if top == usize::MAX { rng.u64() as usize } else { rng.usize(top + 1) });
        }
    }
    d.push(degree(rng, usize::MAX));
    d
}

fn observe<N: Coef, P: PolyT<N> + SizedPolynomial<N>>(ctx: &mut Ctx, p: &P, iter: Result<Vec<(N, usize)>, String>, v: &MP, all: bool) {
    let before = format!("{:?}", p);
    let what = |x: &str| format!("{} of {}<{}> {:.300}", x, P::T, N::NAME, before);
    if let Some(d) = ctx.op("degree", || p.degree()) {
        let want = v.degree().map_or(Degree::NegInf, Degree::Num);
        ctx.eq(&what("degree"), &d, &want);
    }
    if let Some(z) = ctx.op("is_zero", || p.is_zero()) {
        ctx.eq(&what("is_zero"), &z, &v.is_zero());
    }
    // Exact coefficients, in descending degree.
    let want: Vec<(Dy, usize)> = v.t.iter().rev().map(|(d, c)| (c.clone(), *d)).collect();
    let listed = ctx.op("terms_as_vec", || p.terms_as_vec());
    if let Some(t) = &listed {
        let got: Vec<(Option<Dy>, usize)> = t.iter().map(|(c, d)| (c.dy(), *d)).collect();
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0.as_ref() == Some(&w.0) && g.1 == w.1);
        ctx.check(ok, || format!("{}: got {:.300}", what("terms_as_vec"), format!("{:?}", t)));
    }
    match iter {
        Err(m) => ctx.fail(format!("{} panicked: {}", what("ordered_term_iter"), m)),
        Ok(t) => {
            let got: Vec<(Option<Dy>, usize)> = t.iter().map(|(c, d)| (c.dy(), *d)).collect();
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0.as_ref() == Some(&w.0) && g.1 == w.1);
            ctx.check(ok, || format!("{}: got {:.300}", what("ordered_term_iter"), format!("{:?}", t)));
        }
    }
    let mut ds = probes(&mut ctx.rng, v);
    if all {
        ds.extend(0..v.degree().map_or(0, |d| d.min(4096)) + 6);
    }
    for d in ds {
        if let Some(t) = ctx.op("term_with_degree", || p.term_with_degree(d)) {
            let want = v.get(d);
            let ok = match t {
                Term::ZeroTerm => want.is_zero(),
                Term::Term(c, k) => k == d && !want.is_zero() && c.dy() == Some(want),
            };
            ctx.check(ok, || format!("{} at {}: got {:?}", what("term_with_degree"), d, p.term_with_degree(d)));
        }
    }
    if format!("{:?}", p) != before {
        ctx.fail(format!("{} was changed by observing it", before));
    }
}

macro_rules! watch {
    ($ctx:expr, $p:expr, $v:expr, $all:expr) => {match $p { watched => {
        let it = run::guarded(|| {
            let all = watched.ordered_term_iter().collect::<Vec<_>>();
            // One at a time, in part, and past the end: the same terms.
            let mut steps = watched.ordered_term_iter();
            let mut seen = vec![];
            loop {
                let (lo, hi) = steps.size_hint();
                let left = all.len().saturating_sub(seen.len());
                assert!(lo <= left && hi.map_or(true, |h| left <= h), "size_hint {:?} with {} terms left", (lo, hi), left);
                match steps.next() {
                    Some(t) if seen.len() <= all.len() => seen.push(t),
                    Some(_) => panic!("more terms one by one than collected"),
                    None => break,
                }
            }
            assert!(steps.next().is_none(), "a term after the end");
            assert!(seen.len() == all.len() && seen.iter().zip(&all).all(|(a, b)| a.1 == b.1 && a.0 == b.0), "collected {} terms, one by one {}", all.len(), seen.len());
            assert_eq!(watched.ordered_term_iter().count(), all.len());
            assert_eq!(watched.ordered_term_iter().last().map(|t| t.1), all.last().map(|t| t.1));
            if all.len() > 1 {
                let k = all.len() / 2;
                assert_eq!(watched.ordered_term_iter().nth(k).map(|t| t.1), Some(all[k].1));
            }
            all
        });
        $ctx.bump("ordered_term_iter");
        observe($ctx, watched, it, $v, $all);
    }}};
}

/// A polynomial with any coefficients, of either shape.
fn any_poly<N: Coef>(rng: &mut Rng) -> MP {
    let mut p = MP::zero();
    match rng.below(4) {
        0 => {
            let n = length(rng, 3000);
            let s = scale_of::<N>(rng);
            p = gen_dense::<N>(rng, n, N::BITS, s);
        }
        1 => {
            for _ in 0..rng.usize(7) {
                let c = any_coef::<N>(rng).dy().unwrap();
                let d = if rng.chance(10) { usize::MAX - rng.usize(3) } else { degree(rng, usize::MAX) };
                if !p.t.contains_key(&d) {
                    p.add_term(&c, d);
                }
            }
        }
        2 => {
            // Fits the small types.
            for d in 0..1 + rng.usize(3) {
                if rng.chance(70) {
                    let c = any_coef::<N>(rng).dy().unwrap();
                    p.add_term(&c, d);
                }
            }
        }
        _ => {
            let n = 1 + rng.usize(14);
            for d in 0..n {
                if rng.chance(60) {
                    let c = any_coef::<N>(rng).dy().unwrap();
                    p.add_term(&c, d);
                }
            }
        }
    }
    let mut q = MP::zero();
    for (d, c) in &p.t {
        if N::from_dy(c).is_some() {
            q.add_term(c, *d);
        }
    }
    q
}

fn build<N: Coef>(ctx: &mut Ctx) {
    let v = any_poly::<N>(&mut ctx.rng);
    if !v.is_zero() {
        ctx.distinct(v.hash() ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {}", N::NAME, v.show()));
    ctx.max("degree", v.degree().unwrap_or(0) as u64);
    let all = ctx.rng.chance(30);
    each_type!(ctx, N, &v, p, { watch!(ctx, &p, &v, all); });
    // Zeros with any stored degree.
    let z = Monomial::new(N::some_zero(&mut ctx.rng), *ctx.rng.clone().pick(&[0, 1, 7, usize::MAX]));
    watch!(ctx, &z, &MP::zero(), false);
    let mut s = sparse::<N>(&v, &mut ctx.rng);
    if !v.t.contains_key(&usize::MAX) {
        s.terms.insert(usize::MAX, N::some_zero(&mut ctx.rng));
        watch!(ctx, &s, &v, false);
    }
    watch!(ctx, &<Polynomial<N> as SizedPolynomial<N>>::zero(), &MP::zero(), false);
    watch!(ctx, &<SparsePolynomial<N> as SizedPolynomial<N>>::zero(), &MP::zero(), false);
}

fn pair<N: Coef, P: PolyT<N>>(ctx: &mut Ctx, v: &MP, w: &MP) {
    let (Some(a), Some(b)) = (P::build(v, &mut ctx.rng), P::build(w, &mut ctx.rng)) else { return };
    let want = v == w;
    ctx.bump(if want { "equal pairs" } else { "unequal pairs" });
    let name = format!("{}<{}> ==", P::T, N::NAME);
    for (x, y) in [(&a, &b), (&b, &a)] {
        if let Some(got) = ctx.op("==", || x == y) {
            ctx.check(got == want, || format!("{} of {:.200} and {:.200}: got {}", name, format!("{:?}", x), format!("{:?}", y), got));
        }
        if let Some(got) = ctx.op("!=", || x != y) {
            ctx.check(got != want, || format!("{} (!=) of {:.200} and {:.200}: got {}", name, format!("{:?}", x), format!("{:?}", y), got));
        }
    }
    for x in [&a, &b] {
        let c = x.clone();
        ctx.check(*x == c && c == *x && x == x, || format!("{}: {:.200} differs from itself or its clone", name, format!("{:?}", x)));
        ctx.check(c.val().ok() == x.val().ok(), || format!("{}: the clone of {:.200} has another value", name, format!("{:?}", x)));
    }
}

/// The float next to `c`.
fn nearby<N: Coef>(c: &Dy) -> Dy {
    let bits = c.log2_up() as i64;
    let eps = Dy::pow2(bits - i64::from(N::BITS));
    for k in 0..4 {
        let x = c.add(&eps.mul(&Dy::pow2(k)));
        if N::from_dy(&x).is_some() {
            return x;
        }
    }
    c.neg()
}

fn equality<N: Coef>(ctx: &mut Ctx) {
    let v = any_poly::<N>(&mut ctx.rng);
    // Equal, or different in a subtle way.
    let w = match ctx.rng.below(11) {
        0..=2 => v.clone(),
        8 if !v.t.is_empty() => {
            // One coefficient differs as little as possible.
            let mut w = v.clone();
            let k = ctx.rng.usize(v.t.len());
            let (d, c) = v.t.iter().nth(k).map(|(d, c)| (*d, c.clone())).unwrap();
            let x = match ctx.rng.below(3) {
                0 => c.neg(),
                1 => c.add(&Dy::one()),
                _ => c.sub(&Dy::one()),
            };
            let x = if N::FLOAT && ctx.rng.bool() { nearby::<N>(&c) } else { x };
            if N::from_dy(&x).is_some() {
                w.t.remove(&d);
                w.add_term(&x, d);
            }
            w
        }
        9..=10 if v.t.len() > 1 => {
            // Two coefficients change places.
            let mut w = v.clone();
            let (i, j) = (ctx.rng.usize(v.t.len()), ctx.rng.usize(v.t.len()));
            let j = if ctx.rng.bool() { (i + 1) % v.t.len() } else { j };
            let at = |k: usize| v.t.iter().nth(k).map(|(d, c)| (*d, c.clone())).unwrap();
            let ((d, c), (e, x)) = (at(i), at(j));
            w.t.insert(d, x);
            w.t.insert(e, c);
            w
        }
        3 => any_poly::<N>(&mut ctx.rng),
        4 => {
            // One coefficient differs.
            let mut w = v.clone();
            if !v.t.is_empty() {
                let k = ctx.rng.usize(v.t.len());
                let d = *v.t.keys().nth(k).unwrap();
                let c = any_coef::<N>(&mut ctx.rng).dy().unwrap();
                w.t.remove(&d);
                w.add_term(&c, d);
            }
            w
        }
        5 => {
            // One term less.
            let mut w = v.clone();
            if !v.t.is_empty() {
                let k = match ctx.rng.below(3) {
                    0 => 0,
                    1 => v.t.len() - 1,
                    _ => ctx.rng.usize(v.t.len()),
                };
                let d = *v.t.keys().nth(k).unwrap();
                w.t.remove(&d);
            }
            w
        }
        6 => {
            // One term more, or a term moved.
            let mut w = v.clone();
            let d = match (ctx.rng.below(3), v.degree()) {
                (0, Some(d)) if d < usize::MAX => d + 1,
                (1, _) => 0,
                (_, d) => ctx.rng.usize(d.map_or(3, |d| d.min(1000)) + 1),
            };
            if !w.t.contains_key(&d) {
                w.add_term(&Dy::one(), d);
            }
            w
        }
        _ => {
            // The same coefficients, shifted.
            if v.degree().map_or(true, |d| d < usize::MAX - 4) {
                v.shl(1 + ctx.rng.usize(3))
            } else {
                v.shr(1)
            }
        }
    };
    if !(v.is_zero() && w.is_zero()) {
        ctx.distinct(v.hash() ^ w.hash().rotate_left(9) ^ hash_bytes(N::NAME.as_bytes()));
    }
    ctx.sample(|| format!("{}: {} vs {}", N::NAME, v.show(), w.show()));
    pair::<N, Polynomial<N>>(ctx, &v, &w);
    pair::<N, SparsePolynomial<N>>(ctx, &v, &w);
    pair::<N, Monomial<N>>(ctx, &v, &w);
    pair::<N, LinearBinomial<N>>(ctx, &v, &w);
    pair::<N, QuadraticTrinomial<N>>(ctx, &v, &w);

    // Term order does not matter.
    if v.t.len() > 1 && v.degree().unwrap() < 5000 {
        let mut t: Vec<(N, usize)> = v.t.iter().map(|(d, c)| (nz(c), *d)).collect();
        for i in (1..t.len()).rev() {
            let j = ctx.rng.usize(i + 1);
            t.swap(i, j);
        }
        if ctx.rng.bool() {
            let k = ctx.rng.usize(t.len() + 1);
            let d = ctx.rng.usize(v.degree().unwrap() + 4);
            t.insert(k, (N::some_zero(&mut ctx.rng), d));
        }
        let d = ctx.op("Polynomial::from_terms", || Polynomial::from_terms(&t));
        let e = dense::<N>(&v, &mut ctx.rng);
        if let Some(d) = d {
            ctx.check(d == e && e == d, || format!("{:?} built from {:?} differs from {:?}", d, t, e));
            watch!(ctx, &d, &v, false);
        }
        let d = ctx.op("SparsePolynomial::from_terms", || SparsePolynomial::from_terms(&t));
        let e = sparse::<N>(&v, &mut ctx.rng);
        if let Some(d) = d {
            ctx.check(d == e && e == d, || format!("{:?} built from {:?} differs from {:?}", d, t, e));
            watch!(ctx, &d, &v, false);
        }
    }
}

fn mono_pair<N: Coef>(ctx: &mut Ctx) {
    // Monomials and zeros of every degree.
    let mut one = || {
        let c = if ctx.rng.chance(40) { N::some_zero(&mut ctx.rng) } else { any_coef::<N>(&mut ctx.rng) };
        let d = if ctx.rng.bool() { ctx.rng.usize(3) } else { degree(&mut ctx.rng, usize::MAX) };
        Monomial::new(c, d)
    };
    let a = one();
    let mut b = one();
    if ctx.rng.chance(30) {
        b.coefficient = a.coefficient;
    }
    if ctx.rng.chance(30) {
        b.deg = a.deg;
    }
    let (v, w) = (a.val(), b.val());
    let (Ok(v), Ok(w)) = (v, w) else { return };
    ctx.distinct(hash_bytes(format!("{:?}{:?}{}", a, b, N::NAME).as_bytes()));
    ctx.sample(|| format!("{}: {:?} vs {:?}", N::NAME, a, b));
    ctx.check((a == b) == (v == w) && (b == a) == (v == w), || format!("{:?} == {:?}: got {}, expected {}", a, b, a == b, v == w));
    watch!(ctx, &a, &v, false);
}

/// Observers on what operations leave behind.
fn results(ctx: &mut Ctx) {
    let bits = 6;
    let n = length(&mut ctx.rng, 60);
    let a = gen_dense::<i64>(&mut ctx.rng, n, bits, 0);
    let b = partner::<i64>(&mut ctx.rng, &a, bits, 0, 60);
    ctx.distinct(a.hash() ^ b.hash().rotate_left(3));
    ctx.sample(|| format!("{} and {}", a.show(), b.show()));
    let mut d = dense::<i64>(&a, &mut ctx.rng);
    let mut s = sparse::<i64>(&a, &mut ctx.rng);
    let (e, t) = (dense::<i64>(&b, &mut ctx.rng), sparse::<i64>(&b, &mut ctx.rng));
    for _ in 0..4 {
        match ctx.rng.below(9) {
            0 => {
                d = d + e.clone();
                s = s + t.clone();
            }
            1 => {
                d -= &e;
                s -= t.clone();
            }
            2 => {
                d = d.derivative();
                s = s.derivative();
            }
            3 => {
                let k = ctx.rng.range(-3, 5) as i32;
                d = d << k;
                s <<= k;
            }
            4 => {
                let k = ctx.rng.range(-3, 5) as i32;
                d >>= k;
                s = s >> k;
            }
            5 => {
                d *= 0;
                s *= 0;
            }
            6 => {
                let k = ctx.rng.usize(8);
                if let Term::Term(c, _) = d.term_with_degree(k) {
                    let _ = d.try_sub_term(c, k);
                }
                if let Term::Term(c, _) = s.term_with_degree(k) {
                    let _ = s.try_sub_term(c, k);
                }
            }
            7 => {
                d = -d;
                s = -s;
            }
            _ => {
                d /= 3;
                s = s / 3;
            }
        }
        let (Ok(v), Ok(w)) = (d.val(), s.val()) else { return };
        if v.t.values().any(|c| c.log2_up() > 40) || w.t.values().any(|c| c.log2_up() > 40) {
            return;
        }
        let stored = d.terms.iter().filter(|c| **c == 0).count() + s.terms.values().filter(|c| **c == 0).count();
        ctx.add("stored zeros seen", stored as u64);
        watch!(ctx, &d, &v, true);
        watch!(ctx, &s, &w, true);
        let d2 = dense::<i64>(&v, &mut ctx.rng);
        let s2 = sparse::<i64>(&w, &mut ctx.rng);
        ctx.check(d == d2 && d2 == d && s == s2 && s2 == s, || format!("{:?} != {:?} or {:?} != {:?}", d, d2, s, s2));
    }
}

/// Lengths and numbers of stored zeros beyond 16 bits.
fn huge<N: Coef>(ctx: &mut Ctx) {
    let l = match ctx.rng.below(3) {
        0 => 65_530 + ctx.rng.usize(12),
        1 => 4_090 + ctx.rng.usize(12),
        _ => 1 + ctx.rng.usize(90_000),
    };
    let mut c = gappy(&mut ctx.rng, l, N::zero(), |r| any_coef::<N>(r));
    let pad = if ctx.rng.bool() { 0 } else { 65_530 + ctx.rng.usize(20) };
    let mut p = vec![N::some_zero(&mut ctx.rng); pad];
    p.append(&mut c);
    let n = p.len();
    let want: Vec<(N, usize)> = p.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(i, x)| (*x, n - 1 - i)).collect();
    let deg = want.first().map_or(Degree::NegInf, |t| Degree::Num(t.1));
    let a = Polynomial { terms: p.clone() };
    let stored = ctx.rng.bool();
    let s = SparsePolynomial { terms: p.iter().rev().cloned().enumerate().filter(|(_, c)| stored || !c.is_zero()).collect() };
    ctx.distinct(hash_bytes(format!("{} {} {} {:?}", n, pad, want.len(), deg).as_bytes()));
    ctx.sample(|| format!("{}: {} coefficients after {} zeros", N::NAME, l, pad));
    ctx.max("stored coefficients", n as u64);
    let what = format!("{} with {} coefficients after {} zeros", N::NAME, l, pad);
    if let Some((d, z, t, it)) = ctx.op("observers of a huge Polynomial", || (a.degree(), a.is_zero(), a.terms_as_vec(), a.ordered_term_iter().collect::<Vec<_>>())) {
        ctx.check(d == deg && z == want.is_empty(), || format!("{}: degree {:?}, is_zero {}, expected {:?}", what, d, z, deg));
        ctx.check(t == want && it == want, || format!("{}: terms_as_vec or ordered_term_iter", what));
    }
    if let Some((d, z, t, it)) = ctx.op("observers of a huge SparsePolynomial", || (s.degree(), s.is_zero(), s.terms_as_vec(), s.ordered_term_iter().collect::<Vec<_>>())) {
        ctx.check(d == deg && z == want.is_empty(), || format!("sparse {}: degree {:?}, is_zero {}, expected {:?}", what, d, z, deg));
        ctx.check(t == want && it == want, || format!("sparse {}: terms_as_vec or ordered_term_iter", what));
    }
    for k in 0..40 {
        let d = if k < 20 { n.saturating_sub(k) } else { ctx.rng.usize(n) };
        let c = if d < n { p[n - 1 - d] } else { N::zero() };
        let w = if c.is_zero() { Term::ZeroTerm } else { Term::Term(c, d) };
        if let Some((x, y)) = ctx.op("term_with_degree of a huge polynomial", || (a.term_with_degree(d), s.term_with_degree(d))) {
            ctx.check(x == w && y == w, || format!("{}: term {} is {:?} and {:?}", what, d, x, y));
        }
    }
    // Equal without the zeros, unequal with one coefficient changed.
    let b = Polynomial { terms: p[pad..].to_vec() };
    let t = SparsePolynomial { terms: s.terms.iter().filter(|(_, c)| !c.is_zero()).map(|(d, c)| (*d, *c)).collect() };
    ctx.check(a == b && b == a && s == t && t == s, || format!("{}: differs from itself without zeros", what));
    let i = match ctx.rng.below(3) {
        0 => n - 1,
        1 => pad,
        _ => pad + ctx.rng.usize(l),
    };
    let x = if p[i].is_zero() { N::one() } else { N::zero() };
    let mut o = p.clone();
    o[i] = x;
    let b = Polynomial { terms: o[pad..].to_vec() };
    let mut t = t;
    t.terms.insert(n - 1 - i, x);
    ctx.check(a != b && b != a && !(a == b) && !(b == a), || format!("{}: equal although coefficient {} differs", what, n - 1 - i));
    ctx.check(s != t && t != s && !(s == t) && !(t == s), || format!("sparse {}: equal although coefficient {} differs", what, n - 1 - i));
}

/// Coefficients of a user-defined ring.
fn rings(ctx: &mut Ctx) {
    let m = *ctx.rng.pick(&[2u64, 3, 4, 6, 97]);
    set_modulus(m);
    let n = ctx.rng.usize(24);
    let c: Vec<Zn> = (0..n).map(|_| if ctx.rng.bool() { Zn(0) } else { Zn(ctx.rng.below(m)) }).collect();
    let want: Vec<(Zn, usize)> = c.iter().enumerate().filter(|(_, x)| x.0 != 0).map(|(i, x)| (*x, n - 1 - i)).collect();
    ctx.distinct(hash_bytes(format!("{:?}{}", c, m).as_bytes()));
    ctx.sample(|| format!("Z/{}: {:?}", m, c));
    let d = Polynomial { terms: c.clone() };
    let s = SparsePolynomial { terms: c.iter().rev().cloned().enumerate().collect() };
    let deg = want.first().map_or(Degree::NegInf, |t| Degree::Num(t.1));
    for (name, terms, it, degree, zero) in [
        ("Polynomial", d.terms_as_vec(), d.ordered_term_iter().collect::<Vec<_>>(), d.degree(), d.is_zero()),
        ("SparsePolynomial", s.terms_as_vec(), s.ordered_term_iter().collect::<Vec<_>>(), s.degree(), s.is_zero()),
    ] {
        ctx.eq(&format!("{} terms_as_vec over Z/{}", name, m), &terms, &want);
        ctx.eq(&format!("{} ordered_term_iter over Z/{}", name, m), &it, &want);
        ctx.eq(&format!("{} degree over Z/{}", name, m), &degree, &deg);
        ctx.eq(&format!("{} is_zero over Z/{}", name, m), &zero, &want.is_empty());
    }
    for k in 0..n + 2 {
        let w = want.iter().find(|t| t.1 == k).map_or(Term::ZeroTerm, |t| Term::Term(t.0, k));
        ctx.eq("term_with_degree over Z/n", &d.term_with_degree(k), &w);
        ctx.eq("term_with_degree over Z/n", &s.term_with_degree(k), &w);
    }
}

fn s_build(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, build(ctx));
}
fn s_equality(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, equality(ctx));
}
fn s_huge(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, huge(ctx));
}
fn s_mono(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, mono_pair(ctx));
}

fn main() {
    run::main(Spec {
        id: "C05",
        rule: "Values are drawn per coefficient type (any finite coefficient, degrees up to the largest integer) and stored by every type which can hold them, with leading and interior zeros and negative float zeros added at random; every observer and both directions of equality are compared with the abstract value. Non-trivial: a non-zero value; distinct by value(s) and type.",
        assumptions: &["NaN coefficients, which are not equal to themselves, are not explored."],
        sections: vec![
            Section { name: "build", quick: 56_000, thorough: 2_800_000, f: s_build },
            Section { name: "equality", quick: 70_000, thorough: 2_800_000, f: s_equality },
            Section { name: "monomials", quick: 42_000, thorough: 1_400_000, f: s_mono },
            Section { name: "results", quick: 20_000, thorough: 600_000, f: results },
            Section { name: "huge", quick: 280, thorough: 5_600, f: s_huge },
            Section { name: "rings", quick: 20_000, thorough: 600_000, f: rings },
        ],
        known: vec![],
    })
}
