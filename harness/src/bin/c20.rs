//! C20: chains of operations, each on what the ones before it left, stay in step with the algebra.
use num::Zero;
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::{
    Derivable, Evaluable, FreeSizePolynomial, Integrable, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial,
    SparsePolynomial, Term,
};
use std::fmt::Debug;
use vh::ring::{modulus, set_modulus, Zn};
use vh::rng::hash_bytes;
use vh::*;

/// A coefficient type with its exact value.
trait K: Copy + Debug + PartialEq + Zero + Send + 'static {
    const NAME: &'static str;
    fn lift(self) -> Option<Dy>;
    fn lower(c: &Dy) -> Self;
    /// The model's result as the type has it; None if it, or the given bound on what is computed on the
    /// way, is out of range.
    fn norm(p: MP, bound: &MP) -> Option<MP>;
    fn signed() -> bool;
    /// c / d for division with remainder by a divisor with this leading coefficient, if that is exact.
    fn quotient(c: &Dy, d: &Dy) -> Option<Dy>;
}

/// The quotient of small whole numbers, if it is one.
fn exactly(c: &Dy, d: &Dy) -> Option<Dy> {
    let small = |x: &Dy| (-5000..=5000).find(|k| *x == Dy::int(*k));
    let (c, d) = (small(c)?, small(d)?);
    (d != 0 && c % d == 0).then(|| Dy::int(c / d))
}

macro_rules! primitive {
    ($($n:ident)*) => {$(
        impl K for $n {
            const NAME: &'static str = stringify!($n);
            fn lift(self) -> Option<Dy> { self.dy() }
            fn lower(c: &Dy) -> Self { <$n as Coef>::from_dy(c).expect("in range") }
            fn norm(p: MP, bound: &MP) -> Option<MP> {
                (bound.fits::<$n>() && representable::<$n>(&p)).then_some(p)
            }
            fn signed() -> bool { <$n as Coef>::SIGNED }
            fn quotient(c: &Dy, d: &Dy) -> Option<Dy> {
                if *d == Dy::one() { Some(c.clone()) } else if *d == Dy::int(-1) { Some(c.neg()) } else { exactly(c, d) }
            }
        }
    )*};
}
primitive!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64);

impl K for Zn {
    const NAME: &'static str = "Z/p";
    fn lift(self) -> Option<Dy> {
        Some(Dy::int(i128::from(self.0)))
    }
    fn lower(c: &Dy) -> Self {
        let n = num::BigInt::from(modulus());
        let m: num::BigInt = ((&c.m % &n) + &n) % &n;
        Zn::new(i64::try_from(m).unwrap())
    }
    fn norm(p: MP, _: &MP) -> Option<MP> {
        Some(p.map(|c| Zn::lower(c).lift().unwrap()))
    }
    fn signed() -> bool {
        true
    }
    fn quotient(c: &Dy, d: &Dy) -> Option<Dy> {
        (Zn::lower(c) / Zn::lower(d)).lift()
    }
}

/// Adding to and subtracting from the growing types. Only the primitive types have it; others go
/// through add_term.
trait Grow: K {
    fn add_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>);
    fn add_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>);
    fn sub_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>);
    fn sub_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>);
    fn mul_d(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut Polynomial<Self>);
    fn mul_s(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut SparsePolynomial<Self>);
    fn one_d(add: bool, c: Self, d: usize, x: &mut Polynomial<Self>);
    fn one_s(add: bool, c: Self, d: usize, x: &mut SparsePolynomial<Self>);
}
macro_rules! grow {
    ($($n:ident)*) => {$(
        impl Grow for $n {
            fn add_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>) { add_poly(t, x).expect("add_poly") }
            fn add_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>) { add_poly(t, x).expect("add_poly") }
            fn sub_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>) { sub_poly(t, x).expect("sub_poly") }
            fn sub_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>) { sub_poly(t, x).expect("sub_poly") }
            fn mul_d(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut Polynomial<Self>) { mul_poly_vec(t, u, x).expect("mul_poly_vec") }
            fn mul_s(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut SparsePolynomial<Self>) { mul_poly_vec(t, u, x).expect("mul_poly_vec") }
            fn one_d(add: bool, c: Self, d: usize, x: &mut Polynomial<Self>) { if add { x.try_add_term(c, d) } else { x.try_sub_term(c, d) }.expect("term") }
            fn one_s(add: bool, c: Self, d: usize, x: &mut SparsePolynomial<Self>) { if add { x.try_add_term(c, d) } else { x.try_sub_term(c, d) }.expect("term") }
        }
    )*};
}
grow!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64);
impl Grow for Zn {
    fn add_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>) {
        t.for_each(|(c, d)| x.add_term(c, d));
    }
    fn add_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>) {
        t.for_each(|(c, d)| x.add_term(c, d));
    }
    fn sub_d(t: impl Iterator<Item = (Self, usize)>, x: &mut Polynomial<Self>) {
        t.for_each(|(c, d)| x.add_term(-c, d));
    }
    fn sub_s(t: impl Iterator<Item = (Self, usize)>, x: &mut SparsePolynomial<Self>) {
        t.for_each(|(c, d)| x.add_term(-c, d));
    }
    fn mul_d(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut Polynomial<Self>) {
        t.for_each(|(c, d)| u.iter().for_each(|(e, f)| x.add_term(c * *e, d + f)));
    }
    fn mul_s(t: impl Iterator<Item = (Self, usize)>, u: &[(Self, usize)], x: &mut SparsePolynomial<Self>) {
        t.for_each(|(c, d)| u.iter().for_each(|(e, f)| x.add_term(c * *e, d + f)));
    }
    fn one_d(add: bool, c: Self, d: usize, x: &mut Polynomial<Self>) {
        x.add_term(if add { c } else { -c }, d);
    }
    fn one_s(add: bool, c: Self, d: usize, x: &mut SparsePolynomial<Self>) {
        x.add_term(if add { c } else { -c }, d);
    }
}

/// A value together with what it should be.
#[derive(Clone)]
struct V<P> {
    p: P,
    v: MP,
}

struct Pool<N> {
    d: Vec<V<Polynomial<N>>>,
    s: Vec<V<SparsePolynomial<N>>>,
    m: Vec<V<Monomial<N>>>,
    b: Vec<V<LinearBinomial<N>>>,
    q: Vec<V<QuadraticTrinomial<N>>>,
}

enum New<N> {
    /// Not possible with these operands.
    Skip,
    /// The operation panicked.
    Died,
    D(usize, V<Polynomial<N>>),
    S(usize, V<SparsePolynomial<N>>),
    M(usize, V<Monomial<N>>),
    B(usize, V<LinearBinomial<N>>),
    Q(usize, V<QuadraticTrinomial<N>>),
}

fn read<N: K>(terms: impl Iterator<Item = (N, usize)>) -> Option<MP> {
    let mut p = MP::zero();
    for (c, d) in terms {
        let c = c.lift()?;
        if !c.is_zero() {
            p.add_term(&c, d);
        }
    }
    Some(p)
}

trait Seen<N: K>: Clone + Debug + PartialEq + SizedPolynomial<N> {
    const T: &'static str;
    /// What is stored.
    fn stored(&self) -> Option<MP>;
    fn iterated(&self) -> Vec<(N, usize)>;
    /// The value stored in another way.
    fn other(v: &MP, rng: &mut Rng) -> Self;
}
fn zeros<N: K>(v: &MP, top: usize) -> Vec<N> {
    (0..top).rev().map(|d| N::lower(&v.get(d))).collect()
}
impl<N: K> Seen<N> for Polynomial<N> {
    const T: &'static str = "Polynomial";
    fn stored(&self) -> Option<MP> {
        let n = self.terms.len();
        read(self.terms.iter().enumerate().map(|(i, c)| (*c, n - 1 - i)))
    }
    fn iterated(&self) -> Vec<(N, usize)> {
        self.ordered_term_iter().collect()
    }
    fn other(v: &MP, rng: &mut Rng) -> Self {
        let n = v.degree().map_or(0, |d| d + 1);
        let pad = if rng.chance(15) { rng.usize(12) } else { rng.usize(3) };
        Polynomial { terms: roomy(&zeros::<N>(v, n + pad)) }
    }
}
impl<N: K> Seen<N> for SparsePolynomial<N> {
    const T: &'static str = "SparsePolynomial";
    fn stored(&self) -> Option<MP> {
        read(self.terms.iter().map(|(d, c)| (*c, *d)))
    }
    fn iterated(&self) -> Vec<(N, usize)> {
        self.ordered_term_iter().collect()
    }
    fn other(v: &MP, rng: &mut Rng) -> Self {
        let mut terms: std::collections::BTreeMap<usize, N> = v.t.iter().map(|(d, c)| (*d, N::lower(c))).collect();
        if rng.bool() {
            terms.entry(rng.usize(9)).or_insert_with(N::zero);
        }
        SparsePolynomial { terms }
    }
}
impl<N: K> Seen<N> for Monomial<N> {
    const T: &'static str = "Monomial";
    fn stored(&self) -> Option<MP> {
        read(std::iter::once((self.coefficient, self.deg)))
    }
    fn iterated(&self) -> Vec<(N, usize)> {
        self.ordered_term_iter().collect()
    }
    fn other(v: &MP, rng: &mut Rng) -> Self {
        match v.t.iter().next() {
            Some((d, c)) => Monomial { coefficient: N::lower(c), deg: *d },
            None => Monomial { coefficient: N::zero(), deg: rng.usize(5) },
        }
    }
}
impl<N: K> Seen<N> for LinearBinomial<N> {
    const T: &'static str = "LinearBinomial";
    fn stored(&self) -> Option<MP> {
        read(self.coefficients.iter().enumerate().map(|(i, c)| (*c, 1 - i)))
    }
    fn iterated(&self) -> Vec<(N, usize)> {
        self.ordered_term_iter().collect()
    }
    fn other(v: &MP, _: &mut Rng) -> Self {
        LinearBinomial { coefficients: [1, 0].map(|d| N::lower(&v.get(d))) }
    }
}
impl<N: K> Seen<N> for QuadraticTrinomial<N> {
    const T: &'static str = "QuadraticTrinomial";
    fn stored(&self) -> Option<MP> {
        read(self.coefficients.iter().enumerate().map(|(i, c)| (*c, 2 - i)))
    }
    fn iterated(&self) -> Vec<(N, usize)> {
        self.ordered_term_iter().collect()
    }
    fn other(v: &MP, _: &mut Rng) -> Self {
        QuadraticTrinomial { coefficients: [2, 1, 0].map(|d| N::lower(&v.get(d))) }
    }
}

/// Judges a value; with `all`, through every observer.
fn judge<N: K, P: Seen<N>>(ctx: &mut Ctx, x: &V<P>, peer: &V<P>, all: bool, chain: &[String]) {
    let about = |what: String| format!("{}<{}>: {}; stored {}, expected {}; after {}", P::T, N::NAME, what, brief(&x.p), x.v.show(), chain.join(", "));
    ctx.bump("values compared");
    if x.p.stored().as_ref() != Some(&x.v) {
        ctx.fail(about("value".into()));
        return;
    }
    if !all {
        return;
    }
    ctx.bump("values observed in full");
    let other = P::other(&x.v, &mut ctx.rng);
    let at = ctx.rng.usize(12);
    let Some((degree, zero, vec, iter, term, equal, peers)) = ctx.op("observers", || {
        let equal = (x.p == x.p.clone(), x.p == other, other == x.p, x.p != other);
        (x.p.degree(), x.p.is_zero(), x.p.terms_as_vec(), x.p.iterated(), x.p.term_with_degree(at), equal, (x.p == peer.p, peer.p == x.p))
    }) else {
        ctx.fail(about("panicked".into()));
        return;
    };
    let want: Vec<(N, usize)> = x.v.t.iter().rev().map(|(d, c)| (N::lower(c), *d)).collect();
    let deg = match degree {
        rustnomial::Degree::NegInf => None,
        rustnomial::Degree::Num(d) => Some(d),
    };
    ctx.check(deg == x.v.degree() && zero == x.v.is_zero(), || about(format!("degree {:?}, is_zero {}", deg, zero)));
    ctx.check(vec == want && iter == want, || about(format!("terms {}, iterated {}", brief(&vec), brief(&iter))));
    let c = N::lower(&x.v.get(at));
    let ok = match &term {
        Term::ZeroTerm => c.is_zero(),
        Term::Term(k, d) => !c.is_zero() && *k == c && *d == at,
    };
    ctx.check(ok, || about(format!("term of degree {}: {:?}", at, term)));
    ctx.check(equal == (true, true, true, false), || about(format!("equality with its clone and {}: {:?}", brief(&other), equal)));
    let same = x.v == peer.v;
    ctx.check(peers == (same, same), || about(format!("equality with {}: {:?}", brief(&peer.p), peers)));
}

fn small<N: K>(rng: &mut Rng) -> Dy {
    let c = match rng.below(16) {
        0..=3 => 0,
        4..=7 => *rng.pick(&[1, 1, -1]),
        8 => {
            // Somewhat larger, if the type has it.
            let c = rng.range(-100, 100) << rng.below(26);
            let p = MP::constant(Dy::int(i128::from(if N::signed() { c } else { c.abs() })));
            let b = p.abs();
            return N::norm(p, &b).map_or(Dy::one(), |p| p.get(0));
        }
        _ => rng.range(-4, 4),
    };
    Dy::int(i128::from(if N::signed() { c } else { c.abs() }))
}
fn draw<N: K>(rng: &mut Rng, len: usize) -> MP {
    let mut p = MP::zero();
    for d in 0..len {
        p.add_term(&small::<N>(rng), d);
    }
    let b = p.abs();
    N::norm(p, &b).unwrap_or_else(MP::zero)
}
fn draw_sparse<N: K>(rng: &mut Rng) -> MP {
    let mut p = MP::zero();
    for _ in 0..rng.usize(5) {
        let d = match rng.below(10) {
            0..=6 => rng.usize(20),
            // Just at the widths of integers.
            7 => (1usize << *rng.pick(&[7, 8, 15, 16, 31, 32])) + rng.usize(3) - 1,
            _ => degree(rng, 1 << 40),
        };
        p.add_term(&small::<N>(rng), d);
    }
    let b = p.abs();
    N::norm(p, &b).unwrap_or_else(MP::zero)
}

/// Division with remainder in the model, if every step is exact and in range.
fn divide<N: K>(n: &MP, d: &MP) -> Option<(MP, MP)> {
    let (dd, lead) = d.t.iter().next_back()?;
    let (mut q, mut r) = (MP::zero(), n.clone());
    while let Some((deg, c)) = r.t.iter().next_back() {
        if deg < dd {
            break;
        }
        if q.t.len() > if long() { 300 } else { 60 } {
            return None;
        }
        let k = N::quotient(c, lead)?;
        let (at, part) = (deg - dd, d.scale(&k));
        let part = part.shl(at);
        q.add_term(&k, at);
        let bound = r.abs().add(&part.abs());
        r = N::norm(r.sub(&part), &bound)?;
    }
    let b = q.abs();
    Some((N::norm(q, &b)?, r))
}

/// Degrees which every coefficient type of this size has as a coefficient.
fn top<N: K>() -> usize {
    if std::mem::size_of::<N>() == 1 {
        120
    } else {
        30_000
    }
}

/// Every coefficient divided, if that is exact.
fn divided<N: K>(p: &MP, c: &Dy) -> Option<MP> {
    if N::lower(c).is_zero() {
        return None;
    }
    let mut q = MP::zero();
    for (d, a) in &p.t {
        q.add_term(&N::quotient(a, c)?, *d);
    }
    let b = q.abs();
    N::norm(q, &b)
}

/// The integral with this constant, if it is exact.
fn integrated<N: K>(p: &MP, c: &Dy) -> Option<MP> {
    let mut q = MP::constant(c.clone());
    for (d, a) in &p.t {
        if *d >= top::<N>() {
            return None;
        }
        q.add_term(&N::quotient(a, &Dy::int(*d as i128 + 1))?, d + 1);
    }
    let b = q.abs();
    N::norm(q, &b)
}

fn derived<N: K>(p: &MP) -> Option<MP> {
    let mut q = MP::zero();
    for (d, c) in &p.t {
        if *d > top::<N>() {
            return None;
        }
        if *d > 0 {
            q.add_term(&c.mul(&Dy::int(*d as i128)), d - 1);
        }
    }
    let b = q.abs();
    N::norm(q, &b)
}

thread_local! {
    static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether this chain is one of long polynomials.
fn long() -> bool {
    LONG.with(|l| l.get())
}
fn dense_limit() -> usize {
    if long() { 700 } else { 90 }
}
const WIDE: usize = 1 << 45;

fn ok_dense(p: &MP) -> bool {
    p.degree().map_or(true, |d| d < dense_limit())
}
fn ok_sparse(p: &MP) -> bool {
    p.t.len() < if long() { 400 } else { 40 } && p.degree().map_or(true, |d| d < WIDE)
}
fn shifted(p: &MP, k: i32) -> MP {
    if k >= 0 {
        p.shl(k as usize)
    } else {
        p.shr(k.unsigned_abs() as usize)
    }
}
fn powered(p: &MP, k: usize) -> MP {
    (0..k).fold(MP::constant(Dy::one()), |q, _| q.mul(p))
}

/// A power of a polynomial of at most one term, in the type, by squaring.
fn one_term_power<N: K>(p: &MP, k: usize) -> Option<MP> {
    let (mut r, mut sq, mut e) = (MP::constant(Dy::one()), p.clone(), k);
    loop {
        if e & 1 == 1 {
            let x = r.mul(&sq);
            let b = x.abs();
            r = N::norm(x, &b)?;
        }
        e >>= 1;
        let x = sq.mul(&sq);
        let b = x.abs();
        sq = N::norm(x, &b)?;
        if e == 0 {
            return Some(r);
        }
        if sq.degree().map_or(false, |d| d >= WIDE) {
            return None;
        }
    }
}
fn large_exponent(rng: &mut Rng) -> usize {
    (rng.u64() >> rng.below(60)) as usize
}

macro_rules! step {
    (@dense $ctx:ident $i:ident $name:ident $what:expr, $want:expr, $bound:expr, $real:expr) => {{
        match <N as K>::norm($want, &$bound) {
            Some(v) if ok_dense(&v) => {
                $name.push_str($what);
                match $ctx.op($what, || $real) { Some(p) => New::D($i, V { p, v }), None => New::Died }
            }
            _ => New::Skip,
        }
    }};
    (@sparse $ctx:ident $i:ident $name:ident $what:expr, $want:expr, $bound:expr, $real:expr) => {{
        match <N as K>::norm($want, &$bound) {
            Some(v) if ok_sparse(&v) => {
                $name.push_str($what);
                match $ctx.op($what, || $real) { Some(p) => New::S($i, V { p, v }), None => New::Died }
            }
            _ => New::Skip,
        }
    }};
    (@other $put:ident $ctx:ident $i:ident $name:ident $what:expr, $want:expr, $bound:expr, $real:expr) => {{
        match <N as K>::norm($want, &$bound) {
            Some(v) => {
                $name.push_str($what);
                match $ctx.op($what, || $real) { Some(p) => New::$put($i, V { p, v }), None => New::Died }
            }
            _ => New::Skip,
        }
    }};
}

/// The operations which every coefficient type has.
macro_rules! common {
    ($n:ident, $ctx:ident, $pool:ident, $name:ident, $which:expr, $rest:expr) => {{
        type N = $n;
        let (i, j) = ($ctx.rng.usize($pool.d.len()), $ctx.rng.usize($pool.d.len()));
        let (k, flip) = ($ctx.rng.usize(5), $ctx.rng.usize(4));
        let t = $ctx.rng.usize($pool.s.len());
        let (a, b) = (&$pool.d[i], &$pool.d[j]);
        let (s, o) = (&$pool.s[i % $pool.s.len()], &$pool.s[t]);
        let (m, n) = (&$pool.m[i % 2], &$pool.m[j % 2]);
        let (f, g) = (&$pool.b[i % 2], &$pool.b[j % 2]);
        let (p, q) = (&$pool.q[i % 2], &$pool.q[j % 2]);
        let si = i % $pool.s.len();
        let (mi, fi) = (i % 2, i % 2);
        let c = small::<N>(&mut $ctx.rng);
        let cn = N::lower(&c);
        match $which {
            0 => step!(@dense $ctx i $name "+", a.v.add(&b.v), a.v.abs().add(&b.v.abs()), match flip {
                0 | 1 => a.p.own() + b.p.own(),
                2 => b.p.own() + a.p.own(),
                _ => { let mut x = a.p.own(); x += b.p.own(); x }
            }),
            1 if a.v.t.len() * b.v.t.len() < if long() { 40_000 } else { 900 } => step!(@dense $ctx i $name "*", a.v.mul(&b.v), a.v.abs().mul(&b.v.abs()), match (flip, k) {
                (0, _) => &a.p * &b.p,
                (1, _) => a.p.own() * &b.p,
                (2, _) => &a.p * b.p.own(),
                (_, 0) => a.p.own() * b.p.own(),
                (_, 1) => { let mut x = a.p.own(); x *= b.p.own(); x }
                _ => { let mut x = a.p.own(); x *= &b.p; x }
            }),
            2 if a.v.t.len() <= 1 && flip < 2 => {
                let e = if a.v.degree() == Some(0) { large_exponent(&mut $ctx.rng) } else { $ctx.rng.usize(40) };
                match one_term_power::<N>(&a.v, e) {
                    Some(v) => step!(@dense $ctx i $name "large pow", v, MP::zero(), a.p.pow(e)),
                    None => New::Skip,
                }
            }
            14 if s.v.t.len() <= 1 && flip < 2 => {
                let e = large_exponent(&mut $ctx.rng);
                match one_term_power::<N>(&s.v, e) {
                    Some(v) => step!(@sparse $ctx si $name "large sparse pow", v, MP::zero(), s.p.pow(e)),
                    None => New::Skip,
                }
            }
            2 if a.v.t.len() < 12 => step!(@dense $ctx i $name "pow", powered(&a.v, k), powered(&a.v.abs(), k), a.p.pow(k)),
            3 => step!(@dense $ctx i $name "times scalar", a.v.scale(&c), a.v.abs().scale(&c.abs()), if flip < 2 { a.p.own() * cn } else { let mut x = a.p.own(); x *= cn; x }),
            4 => {
                let by = $ctx.rng.range(-12, 12) as i32;
                step!(@dense $ctx i $name "shift", shifted(&a.v, by), MP::zero(), match flip {
                    0 => a.p.own() << by,
                    1 => a.p.own() >> -by,
                    2 => { let mut x = a.p.own(); x <<= by; x }
                    _ => { let mut x = a.p.own(); x >>= -by; x }
                })
            }
            5 => {
                let d = if flip == 0 { k } else { $ctx.rng.usize(dense_limit() / 2) };
                let t = MP::term(c.clone(), d);
                step!(@dense $ctx i $name "add_term", a.v.add(&t), a.v.abs().add(&t.abs()), {
                    let mut x = a.p.own();
                    if k == 0 { N::one_d(true, cn, d, &mut x); } else { x.add_term(cn, d); }
                    x
                })
            }
            6 => step!(@dense $ctx i $name "trim", a.v.clone(), MP::zero(), { let mut x = a.p.own(); x.trim(); x }),
            7 if k == 0 => step!(@dense $ctx i $name "set_to_zero", MP::zero(), MP::zero(), { let mut x = a.p.own(); x.set_to_zero(); x }),
            8 if flip == 3 && ok_dense(&s.v) => step!(@dense $ctx i $name "from the terms of both", a.v.add(&s.v), a.v.abs().add(&s.v.abs()), {
                let mut t = a.p.terms_as_vec();
                t.extend(s.p.ordered_term_iter());
                Polynomial::from_terms(&t)
            }),
            18 if flip == 2 && k > 1 => step!(@sparse $ctx si $name "sparse from the terms of both", a.v.add(&s.v), a.v.abs().add(&s.v.abs()), {
                let mut t = s.p.terms_as_vec();
                t.extend(a.p.ordered_term_iter());
                SparsePolynomial::from_terms(&t)
            }),
            8 if ok_dense(&s.v) => step!(@dense $ctx i $name "from a sparse one", s.v.clone(), MP::zero(), match flip {
                0 => Polynomial::from_terms(&s.p.terms_as_vec()),
                _ => { let mut x = <Polynomial<N> as SizedPolynomial<N>>::zero(); N::add_d(s.p.ordered_term_iter(), &mut x); x }
            }),
            9 if ok_dense(&s.v) => step!(@dense $ctx i $name "add_poly", a.v.add(&s.v), a.v.abs().add(&s.v.abs()), { let mut x = a.p.own(); N::add_d(s.p.ordered_term_iter(), &mut x); x }),
            10 => step!(@dense $ctx i $name "mul_poly_vec", a.v.add(&p.v.mul(&f.v)), a.v.abs().add(&p.v.abs().mul(&f.v.abs())), {
                let mut x = a.p.own();
                N::mul_d(p.p.ordered_term_iter(), &f.p.terms_as_vec(), &mut x);
                x
            }),
            11 => {
                let v = draw::<N>(&mut $ctx.rng, [0, 1, 2, 5, 9][k]);
                let x = <Polynomial<N> as Seen<N>>::other(&v, &mut $ctx.rng);
                step!(@dense $ctx i $name "new", v, MP::zero(), if flip == 0 { Polynomial::new(x.terms) } else { x })
            }
            12 => step!(@sparse $ctx si $name "sparse +", s.v.add(&o.v), s.v.abs().add(&o.v.abs()), match flip {
                0 => s.p.own() + o.p.own(),
                1 => o.p.own() + s.p.own(),
                _ => { let mut x = s.p.own(); x += o.p.own(); x }
            }),
            13 if s.v.t.len() * o.v.t.len() < if long() { 20_000 } else { 300 } => step!(@sparse $ctx si $name "sparse *", s.v.mul(&o.v), s.v.abs().mul(&o.v.abs()), match (flip, k) {
                (0, _) => s.p.own() * &o.p,
                (1, _) => s.p.borrow_mul(&o.p),
                (2, _) => s.p.own() * o.p.own(),
                (_, 0) => { let mut x = s.p.own(); x *= o.p.own(); x }
                _ => { let mut x = s.p.own(); x *= &o.p; x }
            }),
            14 if s.v.t.len() < 5 => step!(@sparse $ctx si $name "sparse pow", powered(&s.v, k), powered(&s.v.abs(), k), s.p.pow(k)),
            15 => step!(@sparse $ctx si $name "sparse times scalar", s.v.scale(&c), s.v.abs().scale(&c.abs()), if flip < 2 { s.p.own() * cn } else { let mut x = s.p.own(); x *= cn; x }),
            16 => {
                let by = if k == 0 { $ctx.rng.range(-1 << 20, 1 << 20) as i32 } else { $ctx.rng.range(-9, 9) as i32 };
                step!(@sparse $ctx si $name "sparse shift", shifted(&s.v, by), MP::zero(), match flip {
                    0 => s.p.own() << by,
                    1 => s.p.own() >> -by,
                    2 => { let mut x = s.p.own(); x <<= by; x }
                    _ => { let mut x = s.p.own(); x >>= -by; x }
                })
            }
            17 => {
                let d = match (flip, s.v.t.len()) {
                    (0, _) => $ctx.rng.usize(1 << 40),
                    (1, 1..) => *s.v.t.keys().nth(k % s.v.t.len()).unwrap(),
                    _ => $ctx.rng.usize(12),
                };
                let t = MP::term(c.clone(), d);
                step!(@sparse $ctx si $name "sparse add_term", s.v.add(&t), s.v.abs().add(&t.abs()), {
                    let mut x = s.p.own();
                    if k == 0 { N::one_s(true, cn, d, &mut x); } else { x.add_term(cn, d); }
                    x
                })
            }
            18 => step!(@sparse $ctx si $name "from a dense one", a.v.clone(), MP::zero(), match flip {
                0 | 1 => SparsePolynomial::from(a.p.terms.clone()),
                2 => SparsePolynomial::from_terms(&a.p.terms_as_vec()),
                _ => { let mut x = <SparsePolynomial<N> as SizedPolynomial<N>>::zero(); N::add_s(a.p.ordered_term_iter(), &mut x); x }
            }),
            19 => step!(@sparse $ctx si $name "sparse mul_poly_vec", s.v.add(&m.v.mul(&p.v)), s.v.abs().add(&m.v.abs().mul(&p.v.abs())), {
                let mut x = s.p.own();
                N::mul_s(m.p.ordered_term_iter(), &p.p.terms_as_vec(), &mut x);
                x
            }),
            20 => {
                let v = draw_sparse::<N>(&mut $ctx.rng);
                let p = <SparsePolynomial<N> as Seen<N>>::other(&v, &mut $ctx.rng);
                step!(@sparse $ctx si $name "sparse new", v, MP::zero(), p)
            }
            21 if k == 0 => step!(@sparse $ctx si $name "sparse set_to_zero", MP::zero(), MP::zero(), { let mut x = s.p.own(); x.set_to_zero(); x }),
            22 if m.v.degree().unwrap_or(0) < WIDE => step!(@other M $ctx mi $name "monomial *", m.v.mul(&n.v), m.v.abs().mul(&n.v.abs()), match flip {
                0 => m.p.own() * n.p.own(),
                1 => m.p.own() * &n.p,
                2 => { let mut x = m.p.own(); x *= n.p.own(); x }
                _ => { let mut x = m.p.own(); x *= &n.p; x }
            }),
            24 if m.v.degree().unwrap_or(0) < WIDE => {
                let by = $ctx.rng.range(-9, 9) as i32;
                step!(@other M $ctx mi $name "monomial shift", shifted(&m.v, by), MP::zero(), match flip {
                    0 => m.p.own() << by,
                    1 => m.p.own() >> -by,
                    2 => { let mut x = m.p.own(); x <<= by; x }
                    _ => { let mut x = m.p.own(); x >>= -by; x }
                })
            }
            25 => {
                let d = $ctx.rng.usize(9);
                let fits = m.v.is_zero() || m.v.degree() == Some(d);
                let t = MP::term(c.clone(), d);
                let want = if fits { m.v.add(&t) } else { m.v.clone() };
                step!(@other M $ctx mi $name "monomial try_add_term", want, m.v.abs().add(&t.abs()), {
                    let mut x = m.p.own();
                    let r = x.try_add_term(cn, d);
                    assert!(r.is_ok() == fits || c.is_zero(), "try_add_term: {:?}", r);
                    x
                })
            }
            26 => {
                let v = MP::term(c.clone(), if k == 0 { $ctx.rng.usize(1 << 40) } else { k });
                let x = <Monomial<N> as Seen<N>>::other(&v, &mut $ctx.rng);
                step!(@other M $ctx mi $name "monomial new", v, MP::zero(), x)
            }
            27 => step!(@other M $ctx mi $name "monomial times scalar", m.v.scale(&c), m.v.abs().scale(&c.abs()), if flip < 2 { m.p.own() * cn } else { let mut x = m.p.own(); x *= cn; x }),
            28 => step!(@other B $ctx fi $name "binomial +", f.v.add(&g.v), f.v.abs().add(&g.v.abs()), if flip < 2 { f.p.own() + g.p.own() } else { let mut x = f.p.own(); x += g.p.own(); x }),
            29 => step!(@other B $ctx fi $name "binomial times scalar", f.v.scale(&c), f.v.abs().scale(&c.abs()), if flip < 2 { f.p.own() * cn } else { let mut x = f.p.own(); x *= cn; x }),
            30 => {
                let d = k;
                let t = MP::term(c.clone(), d);
                let want = if d < 2 { f.v.add(&t) } else { f.v.clone() };
                step!(@other B $ctx fi $name "binomial try_add_term", want, f.v.abs().add(&t.abs()), {
                    let mut x = f.p.own();
                    let r = x.try_add_term(cn, d);
                    assert!(r.is_ok() == (d < 2) || c.is_zero(), "try_add_term: {:?}", r);
                    x
                })
            }
            31 => {
                let by = k as u32;
                step!(@other B $ctx fi $name "binomial >>", f.v.shr(k), MP::zero(), if flip < 2 { f.p.own() >> by } else { let mut x = f.p.own(); x >>= by; x })
            }
            32 => step!(@other Q $ctx fi $name "trinomial +", p.v.add(&q.v), p.v.abs().add(&q.v.abs()), if flip < 2 { p.p.own() + q.p.own() } else { let mut x = p.p.own(); x += q.p.own(); x }),
            33 => step!(@other Q $ctx fi $name "trinomial times scalar", p.v.scale(&c), p.v.abs().scale(&c.abs()), if flip < 2 { p.p.own() * cn } else { let mut x = p.p.own(); x *= cn; x }),
            34 => {
                let d = k;
                let t = MP::term(c.clone(), d);
                let want = if d < 3 { p.v.add(&t) } else { p.v.clone() };
                step!(@other Q $ctx fi $name "trinomial try_add_term", want, p.v.abs().add(&t.abs()), {
                    let mut x = p.p.own();
                    let r = x.try_add_term(cn, d);
                    assert!(r.is_ok() == (d < 3) || c.is_zero(), "try_add_term: {:?}", r);
                    x
                })
            }
            35 => {
                let by = k as u32;
                step!(@other Q $ctx fi $name "trinomial >>", p.v.shr(k), MP::zero(), if flip < 2 { p.p.own() >> by } else { let mut x = p.p.own(); x >>= by; x })
            }
            36 => step!(@other Q $ctx fi $name "trinomial mul_poly_vec", p.v.add(&f.v.mul(&g.v)), p.v.abs().add(&f.v.abs().mul(&g.v.abs())), {
                let mut x = p.p.own();
                mul_poly_vec(f.p.ordered_term_iter(), &g.p.terms_as_vec(), &mut x).expect("mul_poly_vec");
                x
            }),
            37 => {
                let v = draw::<N>(&mut $ctx.rng, 1 + k % 2);
                let x = <LinearBinomial<N> as Seen<N>>::other(&v, &mut $ctx.rng);
                step!(@other B $ctx fi $name "binomial new", v, MP::zero(), x)
            }
            38 => {
                let v = draw::<N>(&mut $ctx.rng, 1 + k % 3);
                let x = <QuadraticTrinomial<N> as Seen<N>>::other(&v, &mut $ctx.rng);
                step!(@other Q $ctx fi $name "trinomial new", v, MP::zero(), x)
            }
            39 => match divided::<N>(&a.v, &c) {
                Some(v) => step!(@dense $ctx i $name "divided by scalar", v, MP::zero(), if flip < 2 { a.p.own() / cn } else { let mut x = a.p.own(); x /= cn; x }),
                None => New::Skip,
            },
            40 => match divided::<N>(&s.v, &c) {
                Some(v) => step!(@sparse $ctx si $name "sparse divided by scalar", v, MP::zero(), if flip < 2 { s.p.own() / cn } else { let mut x = s.p.own(); x /= cn; x }),
                None => New::Skip,
            },
            41 if k < 2 => match divided::<N>(&m.v, &c) {
                Some(v) => step!(@other M $ctx mi $name "monomial divided by scalar", v, MP::zero(), if flip < 2 { m.p.own() / cn } else { let mut x = m.p.own(); x /= cn; x }),
                None => New::Skip,
            },
            41 if k < 4 => match divided::<N>(&f.v, &c) {
                Some(v) => step!(@other B $ctx fi $name "binomial divided by scalar", v, MP::zero(), if flip < 2 { f.p.own() / cn } else { let mut x = f.p.own(); x /= cn; x }),
                None => New::Skip,
            },
            41 => match divided::<N>(&p.v, &c) {
                Some(v) => step!(@other Q $ctx fi $name "trinomial divided by scalar", v, MP::zero(), if flip < 2 { p.p.own() / cn } else { let mut x = p.p.own(); x /= cn; x }),
                None => New::Skip,
            },
            42 if k == 0 => step!(@other M $ctx mi $name "monomial set_to_zero", MP::zero(), MP::zero(), { let mut x = m.p.own(); x.set_to_zero(); x }),
            42 if k == 1 => step!(@other B $ctx fi $name "binomial set_to_zero", MP::zero(), MP::zero(), { let mut x = f.p.own(); x.set_to_zero(); x }),
            42 if k == 2 => step!(@other Q $ctx fi $name "trinomial set_to_zero", MP::zero(), MP::zero(), { let mut x = p.p.own(); x.set_to_zero(); x }),
            0..=99 => New::Skip,
            w => {
                let rest = w - 100;
                $rest($ctx, $pool, $name, rest, [i, j, si, t, k, flip], &c)
            }
        }
    }};
}
const COMMON: usize = 43;

/// Subtraction, negation and division.
macro_rules! signed {
    ($f:ident, $n:ident) => {
        fn $f(ctx: &mut Ctx, pool: &Pool<$n>, name: &mut String, which: usize, [i, j, si, t, k, flip]: [usize; 6], c: &Dy) -> New<$n> {
            type N = $n;
            let (a, b, s, o) = (&pool.d[i], &pool.d[j], &pool.s[si], &pool.s[t]);
            let (m, f, g, p, q) = (&pool.m[i % 2], &pool.b[i % 2], &pool.b[j % 2], &pool.q[i % 2], &pool.q[j % 2]);
            let h = i % 2;
            let cn = N::lower(c);
            match which {
                0 => step!(@dense ctx i name "-", a.v.sub(&b.v), a.v.abs().add(&b.v.abs()), match flip {
                    0 => a.p.own() - b.p.own(),
                    1 => a.p.own() - &b.p,
                    2 => { let mut x = a.p.own(); x -= b.p.own(); x }
                    _ => { let mut x = a.p.own(); x -= &b.p; x }
                }),
                1 => step!(@dense ctx i name "negate", a.v.neg(), MP::zero(), -a.p.own()),
                2 => step!(@sparse ctx si name "sparse -", s.v.sub(&o.v), s.v.abs().add(&o.v.abs()), if flip < 2 { s.p.own() - o.p.own() } else { let mut x = s.p.own(); x -= o.p.own(); x }),
                3 => step!(@sparse ctx si name "sparse negate", s.v.neg(), MP::zero(), -s.p.own()),
                4 => step!(@sparse ctx si name "sparse - dense", s.v.sub(&a.v), s.v.abs().add(&a.v.abs()), s.p.own() - a.p.own()),
                5 | 6 => match divide::<N>(&a.v, &b.v) {
                    Some((dv, dr)) => if flip < 2 {
                        step!(@dense ctx i name "quotient", dv, MP::zero(), if k < 3 { a.p.div_mod(&b.p).0 } else { a.p.floor_div(&b.p) })
                    } else {
                        step!(@dense ctx i name "remainder", dr, MP::zero(), match k { 0 | 1 => a.p.div_mod(&b.p).1, 2 => a.p.own() % b.p.own(), _ => { let mut x = a.p.own(); x %= b.p.own(); x } })
                    },
                    None => New::Skip,
                },
                7 | 8 => match divide::<N>(&s.v, &o.v) {
                    Some((dv, dr)) => if flip < 2 {
                        step!(@sparse ctx si name "sparse quotient", dv, MP::zero(), s.p.div_mod(&o.p).0)
                    } else {
                        step!(@sparse ctx si name "sparse remainder", dr, MP::zero(), match k { 0 | 1 => s.p.div_mod(&o.p).1, 2 => s.p.own() % o.p.own(), _ => { let mut x = s.p.own(); x %= o.p.own(); x } })
                    },
                    None => New::Skip,
                },
                9 => step!(@other M ctx h name "monomial negate", m.v.neg(), MP::zero(), -m.p.own()),
                10 => step!(@other B ctx h name "binomial -", f.v.sub(&g.v), f.v.abs().add(&g.v.abs()), match flip { 0 => -(-f.p.own() + g.p.own()), 1 => f.p.own() - g.p.own(), _ => { let mut x = f.p.own(); x -= g.p.own(); x } }),
                11 => step!(@other Q ctx h name "trinomial -", p.v.sub(&q.v), p.v.abs().add(&q.v.abs()), match flip { 0 => -(-p.p.own() + q.p.own()), 1 => p.p.own() - q.p.own(), _ => { let mut x = p.p.own(); x -= q.p.own(); x } }),
                12 => {
                    let d = ctx.rng.usize(dense_limit() / 3);
                    let u = MP::term(c.clone(), d);
                    step!(@dense ctx i name "try_sub_term", a.v.sub(&u), a.v.abs().add(&u.abs()), { let mut x = a.p.own(); N::one_d(false, cn, d, &mut x); x })
                }
                13 => {
                    let d = match s.v.t.len() { 0 => k, n => *s.v.t.keys().nth(k % n).unwrap() };
                    let u = if flip < 2 { MP::term(c.clone(), d) } else { MP::term(s.v.get(d), d) };
                    let un = N::lower(&u.get(d));
                    step!(@sparse ctx si name "sparse try_sub_term", s.v.sub(&u), s.v.abs().add(&u.abs()), { let mut x = s.p.own(); N::one_s(false, un, d, &mut x); x })
                }
                16 | 17 if !b.v.t.is_empty() && !<N as K>::NAME.starts_with('f') => {
                    // Every step takes away a multiple, by at most the largest coefficient, of the divisor.
                    let most = |p: &MP| p.t.values().fold(Dy::one(), |m, c| if m.sub(&c.abs()).is_neg() { c.abs() } else { m });
                    let steps = a.v.degree().map_or(0, |d| d + 1).saturating_sub(b.v.degree().unwrap());
                    if steps > 40 {
                        return New::Skip;
                    }
                    let grown = powered(&MP::constant(most(&b.v).add(&Dy::one())), steps + 1).mul(&MP::constant(most(&a.v))).mul(&MP::constant(Dy::int(64)));
                    step!(@dense ctx i name "quotient times divisor plus remainder", a.v.clone(), grown, {
                        let (x, y) = if flip < 2 { a.p.div_mod(&b.p) } else { (a.p.floor_div(&b.p), a.p.own() % b.p.own()) };
                        if x.terms.iter().any(|c| c.lift().is_none()) { x } else { x * &b.p + y }
                    })
                }
                18 => {
                    let fits = m.v.t.is_empty() || m.v.degree() == Some(k);
                    let u = MP::term(c.clone(), k);
                    let want = if fits { m.v.sub(&u) } else { m.v.clone() };
                    step!(@other M ctx h name "monomial try_sub_term", want, m.v.abs().add(&u.abs()), {
                        let mut x = m.p.own();
                        let r = x.try_sub_term(cn, k);
                        assert!(r.is_ok() == fits || c.is_zero(), "try_sub_term: {:?}", r);
                        x
                    })
                }
                19 if flip < 2 => {
                    let u = MP::term(c.clone(), k);
                    let want = if k < 2 { f.v.sub(&u) } else { f.v.clone() };
                    step!(@other B ctx h name "binomial try_sub_term", want, f.v.abs().add(&u.abs()), {
                        let mut x = f.p.own();
                        let r = x.try_sub_term(cn, k);
                        assert!(r.is_ok() == (k < 2) || c.is_zero(), "try_sub_term: {:?}", r);
                        x
                    })
                }
                19 => {
                    let u = MP::term(c.clone(), k);
                    let want = if k < 3 { p.v.sub(&u) } else { p.v.clone() };
                    step!(@other Q ctx h name "trinomial try_sub_term", want, p.v.abs().add(&u.abs()), {
                        let mut x = p.p.own();
                        let r = x.try_sub_term(cn, k);
                        assert!(r.is_ok() == (k < 3) || c.is_zero(), "try_sub_term: {:?}", r);
                        x
                    })
                }
                14 => step!(@dense ctx i name "sub_poly", a.v.sub(&p.v), a.v.abs().add(&p.v.abs()), { let mut x = a.p.own(); N::sub_d(p.p.ordered_term_iter(), &mut x); x }),
                15 => step!(@sparse ctx si name "sparse sub_poly", s.v.sub(&a.v), s.v.abs().add(&a.v.abs()), { let mut x = s.p.own(); N::sub_s(a.p.ordered_term_iter(), &mut x); x }),
                _ => New::Skip,
            }
        }
    };
}
const SIGNED: usize = 20;

/// Calculus and text; the primitive types only.
macro_rules! primitive_ops {
    ($f:ident, $n:ident, $next:expr) => {
        fn $f(ctx: &mut Ctx, pool: &Pool<$n>, name: &mut String, which: usize, [i, j, si, t, k, flip]: [usize; 6], c: &Dy) -> New<$n> {
            type N = $n;
            let (a, s, m, f, p) = (&pool.d[i], &pool.s[si], &pool.m[i % 2], &pool.b[i % 2], &pool.q[i % 2]);
            let h = i % 2;
            let cn = N::lower(c);
            match which {
                0 if a.v.degree().unwrap_or(0) < dense_limit() => match derived::<N>(&a.v) {
                    Some(v) => step!(@dense ctx i name "derivative", v, MP::zero(), a.p.derivative()),
                    None => New::Skip,
                },
                1 => match derived::<N>(&s.v) {
                    Some(v) if s.p.terms.keys().all(|d| *d < top::<N>()) => step!(@sparse ctx si name "sparse derivative", v, MP::zero(), s.p.derivative()),
                    _ => New::Skip,
                },
                2 => match derived::<N>(&m.v) {
                    Some(v) => step!(@other M ctx h name "monomial derivative", v, MP::zero(), m.p.derivative()),
                    _ => New::Skip,
                },
                3 => match derived::<N>(&p.v) {
                    Some(v) => step!(@other Q ctx h name "trinomial derivative", v, MP::zero(), p.p.derivative()),
                    _ => New::Skip,
                },
                // The integral of the derivative is the polynomial without its constant term, if that is exact.
                4 => match derived::<N>(&a.v) {
                    Some(_) => {
                        let mut v = a.v.clone();
                        v.t.remove(&0);
                        v.add_term(c, 0);
                        step!(@dense ctx i name "integral of derivative", v, MP::zero(), a.p.derivative().integral().replace_c(cn))
                    }
                    None => New::Skip,
                },
                5 => match derived::<N>(&s.v) {
                    Some(_) if s.p.terms.keys().all(|d| *d < top::<N>()) => {
                        let mut v = s.v.clone();
                        v.t.remove(&0);
                        v.add_term(c, 0);
                        step!(@sparse ctx si name "sparse integral of derivative", v, MP::zero(), s.p.derivative().integral().replace_c(cn))
                    }
                    _ => New::Skip,
                },
                6 => step!(@dense ctx i name "text", a.v.clone(), MP::zero(), a.p.to_string().parse().expect("parses")),
                7 => step!(@sparse ctx si name "sparse text", s.v.clone(), MP::zero(), s.p.to_string().parse().expect("parses")),
                8 => step!(@other M ctx h name "monomial text", m.v.clone(), MP::zero(), m.p.to_string().parse().expect("parses")),
                9 => step!(@other B ctx h name "binomial text", f.v.clone(), MP::zero(), f.p.to_string().parse().expect("parses")),
                10 => step!(@other Q ctx h name "trinomial text", p.v.clone(), MP::zero(), p.p.to_string().parse().expect("parses")),
                // From one type to another through text.
                11 => step!(@sparse ctx si name "text of dense as sparse", a.v.clone(), MP::zero(), a.p.to_string().parse().expect("parses")),
                12 if ok_dense(&s.v) => step!(@dense ctx i name "text of sparse as dense", s.v.clone(), MP::zero(), s.p.to_string().parse().expect("parses")),
                13 => {
                    // Evaluation: the value becomes a constant polynomial.
                    let v = MP::constant(a.v.eval(c));
                    let bound = MP::constant(a.v.abs().eval(&c.abs()));
                    step!(@dense ctx i name "value", v, bound, Polynomial { terms: vec![a.p.eval(cn)] })
                }
                14 if s.v.degree().unwrap_or(0) < 60 => {
                    let v = MP::constant(s.v.eval(c));
                    let bound = MP::constant(s.v.abs().eval(&c.abs()));
                    step!(@sparse ctx si name "sparse value", v, bound, SparsePolynomial::from(vec![s.p.eval(cn)]))
                }
                15 => {
                    let v = MP::constant(p.v.eval(c).add(&f.v.eval(c)));
                    let bound = MP::constant(p.v.abs().eval(&c.abs()).add(&f.v.abs().eval(&c.abs())));
                    step!(@dense ctx j name "values of binomial and trinomial", v, bound, Polynomial::new(vec![p.p.eval(cn) + f.p.eval(cn)]))
                }
                16 if m.v.degree().unwrap_or(0) < WIDE => step!(@other M ctx h name "monomial pow", powered(&m.v, k), powered(&m.v.abs(), k), m.p.pow(k)),
                16 => New::Skip,
                17 => match derived::<N>(&f.v) {
                    Some(v) => step!(@other B ctx h name "binomial derivative", v, MP::zero(), f.p.derivative()),
                    _ => New::Skip,
                },
                18 => match integrated::<N>(&p.v, c) {
                    Some(v) => step!(@dense ctx i name "integral of trinomial", v, MP::zero(), p.p.integral().replace_c(cn)),
                    _ => New::Skip,
                },
                19 => match integrated::<N>(&m.v, c) {
                    Some(v) if m.p.deg < top::<N>() => step!(@sparse ctx si name "integral of monomial", v, MP::zero(), m.p.integral().replace_c(cn)),
                    _ => New::Skip,
                },
                20 => match integrated::<N>(&a.v, c) {
                    Some(v) if a.p.terms.len() < top::<N>() => step!(@dense ctx i name "integral", v, MP::zero(), a.p.integral().replace_c(cn)),
                    _ => New::Skip,
                },
                21 => match integrated::<N>(&s.v, c) {
                    Some(v) if s.p.terms.keys().all(|d| *d < top::<N>()) => step!(@sparse ctx si name "sparse integral", v, MP::zero(), s.p.integral().replace_c(cn)),
                    _ => New::Skip,
                },
                22 => match integrated::<N>(&f.v, c) {
                    Some(v) => step!(@dense ctx i name "integral of binomial", v, MP::zero(), f.p.integral().replace_c(cn)),
                    _ => New::Skip,
                },
                w => $next(ctx, pool, name, w.wrapping_sub(23), [i, j, si, t, k, flip], c),
            }
        }
    };
}
const PRIMITIVE: usize = 23;

fn nothing<N>(_: &mut Ctx, _: &Pool<N>, _: &mut String, _: usize, _: [usize; 6], _: &Dy) -> New<N> {
    New::Skip
}

macro_rules! chain {
    ($f:ident, $n:ident, $rest:expr, $extra:expr) => {
        fn $f(ctx: &mut Ctx) {
            type N = $n;
            let n = 2 + ctx.rng.usize(3);
            let mut pool: Pool<N> = Pool {
                d: (0..n).map(|_| { let l = ctx.rng.usize(if long() { 330 } else { 8 }); let v = draw::<N>(&mut ctx.rng, l); V { p: Seen::<N>::other(&v, &mut ctx.rng), v } }).collect(),
                s: (0..2).map(|_| { let v = draw_sparse::<N>(&mut ctx.rng); V { p: Seen::<N>::other(&v, &mut ctx.rng), v } }).collect(),
                m: (0..2).map(|_| { let v = draw::<N>(&mut ctx.rng, 1); V { p: Seen::<N>::other(&v, &mut ctx.rng), v } }).collect(),
                b: (0..2).map(|_| { let v = draw::<N>(&mut ctx.rng, 2); V { p: Seen::<N>::other(&v, &mut ctx.rng), v } }).collect(),
                q: (0..2).map(|_| { let v = draw::<N>(&mut ctx.rng, 3); V { p: Seen::<N>::other(&v, &mut ctx.rng), v } }).collect(),
            };
            let steps = if ctx.rng.chance(5) { 400 } else { 10 + ctx.rng.usize(60) };
            let mut chain: Vec<String> = vec![];
            let mut did = 0u64;
            for _ in 0..steps {
                let mut name = String::new();
                let w = ctx.rng.usize(COMMON + $extra);
                let which = if w < COMMON { w } else { 100 + w - COMMON };
                let new = { let (pool, name) = (&pool, &mut name); common!($n, ctx, pool, name, which, $rest) };
                let all = ctx.rng.chance(25);
                if !name.is_empty() {
                    did += 1;
                }
                macro_rules! set {
                    ($field:ident, $i:expr, $x:expr) => {{
                        let (i, x) = ($i, $x);
                        chain.push(format!("{} {} = {}", stringify!($field), i, name));
                        let peer = &pool.$field[(i + 1) % pool.$field.len()];
                        let from = chain.len().saturating_sub(6);
                        judge::<N, _>(ctx, &x, peer, all, &chain[from..]);
                        pool.$field[i] = x;
                    }};
                }
                match new {
                    New::Skip => {}
                    New::Died => {
                        ctx.fail(format!("{} over {} panicked after {}", name, <N as K>::NAME, chain.join(", ")));
                        return;
                    }
                    New::D(i, x) => set!(d, i, x),
                    New::S(i, x) => set!(s, i, x),
                    New::M(i, x) => set!(m, i, x),
                    New::B(i, x) => set!(b, i, x),
                    New::Q(i, x) => set!(q, i, x),
                }
            }
            // Nothing else has changed.
            let from = chain.len().saturating_sub(6);
            macro_rules! last {
                ($field:ident) => {
                    for i in 0..pool.$field.len() {
                        let (x, peer) = (&pool.$field[i], &pool.$field[(i + 1) % pool.$field.len()]);
                        judge::<N, _>(ctx, x, peer, true, &chain[from..]);
                    }
                };
            }
            last!(d);
            last!(s);
            last!(m);
            last!(b);
            last!(q);
            ctx.add("steps", did);
            if did > 3 {
                ctx.distinct(hash_bytes(chain.join(",").as_bytes()));
            }
            ctx.sample(|| format!("{}: {}", <N as K>::NAME, chain[..chain.len().min(12)].join(", ")));
        }
    };
}

signed!(signed_i8, i8);
signed!(signed_i16, i16);
signed!(signed_i32, i32);
signed!(signed_i64, i64);
signed!(signed_i128, i128);
signed!(signed_f32, f32);
signed!(signed_f64, f64);
signed!(signed_zn, Zn);
primitive_ops!(ops_i8, i8, signed_i8);
primitive_ops!(ops_i16, i16, signed_i16);
primitive_ops!(ops_i32, i32, signed_i32);
primitive_ops!(ops_i64, i64, signed_i64);
primitive_ops!(ops_i128, i128, signed_i128);
primitive_ops!(ops_f32, f32, signed_f32);
primitive_ops!(ops_f64, f64, signed_f64);
primitive_ops!(ops_u8, u8, nothing);
primitive_ops!(ops_u16, u16, nothing);
primitive_ops!(ops_u32, u32, nothing);
primitive_ops!(ops_u64, u64, nothing);
primitive_ops!(ops_u128, u128, nothing);
chain!(chain_i8, i8, ops_i8, PRIMITIVE + SIGNED);
chain!(chain_i16, i16, ops_i16, PRIMITIVE + SIGNED);
chain!(chain_i32, i32, ops_i32, PRIMITIVE + SIGNED);
chain!(chain_i64, i64, ops_i64, PRIMITIVE + SIGNED);
chain!(chain_i128, i128, ops_i128, PRIMITIVE + SIGNED);
chain!(chain_f32, f32, ops_f32, PRIMITIVE + SIGNED);
chain!(chain_f64, f64, ops_f64, PRIMITIVE + SIGNED);
chain!(chain_u8, u8, ops_u8, PRIMITIVE);
chain!(chain_u16, u16, ops_u16, PRIMITIVE);
chain!(chain_u32, u32, ops_u32, PRIMITIVE);
chain!(chain_u64, u64, ops_u64, PRIMITIVE);
chain!(chain_u128, u128, ops_u128, PRIMITIVE);
chain!(chain_zn, Zn, signed_zn, SIGNED);

fn numbers(ctx: &mut Ctx) {
    match ctx.index % 12 {
        0 => chain_i8(ctx),
        1 => chain_i16(ctx),
        2 => chain_i32(ctx),
        3 => chain_i64(ctx),
        4 => chain_i128(ctx),
        5 => chain_f32(ctx),
        6 => chain_f64(ctx),
        7 => chain_u8(ctx),
        8 => chain_u16(ctx),
        9 => chain_u32(ctx),
        10 => chain_u128(ctx),
        _ => chain_u64(ctx),
    }
}
fn field(ctx: &mut Ctx) {
    set_modulus(*ctx.rng.pick(&[2, 3, 3, 5, 7, 13, 101, 2147483647]));
    chain_zn(ctx);
}

/// Chains of longer polynomials.
fn longer(ctx: &mut Ctx) {
    LONG.with(|l| l.set(true));
    match ctx.index % 4 {
        0 => chain_i64(ctx),
        1 => chain_i128(ctx),
        2 => {
            set_modulus(*ctx.rng.pick(&[2, 3, 101, 2147483647]));
            chain_zn(ctx)
        }
        _ => chain_u64(ctx),
    }
    LONG.with(|l| l.set(false));
}

fn main() {
    run::main(Spec {
        id: "C20",
        rule: "A pool of dense and sparse polynomials, monomials, binomials and trinomials goes through chains of 10 to 400 operations drawn from the whole interface (arithmetic in every form, powers, division, shifts, adding and subtracting terms, accumulating, conversion between the types, calculus, text and back, evaluation), each on whatever the ones before it left. After each step the changed value, as stored, is compared with the model; every fourth time, and at the end for the whole pool, also all of its observers and its equality with itself, with the same value stored in another way and with another value of the pool. Some chains are of polynomials with hundreds of coefficients. Small prime fields make cancellation and stored zeros frequent. Non-trivial: more than three operations; distinct by chain.",
        assumptions: &["Steps whose exact result, or the magnitudes added up on the way to it, would be out of the coefficient type's range are left out."],
        sections: vec![
            Section { name: "numbers", quick: 60_000, thorough: 1_800_000, f: numbers },
            Section { name: "longer", quick: 600, thorough: 20_000, f: longer },
            Section { name: "field", quick: 30_000, thorough: 900_000, f: field },
        ],
        known: vec![],
    })
}
