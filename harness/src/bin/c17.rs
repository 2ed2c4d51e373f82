//! C17: no undefined behaviour, no hidden state. The same workload is run plainly, under the address
//! sanitizer and (`c17 interpret`) under Miri, which sees undefined behaviour and data races.
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::{
    polynomial, Derivable, Evaluable, FreeSizePolynomial, Integrable, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial,
    SizedPolynomial, SparsePolynomial, Term,
};
use std::fmt::Debug;
use std::str::FromStr;
use std::sync::{Arc, Barrier};
use vh::alloc::measure;
use vh::ring::{counted, set_modulus, Zn};
use vh::rng::{hash_bytes, mix};
use vh::*;

#[derive(Clone, Debug)]
struct Pool<N> {
    d: Vec<Polynomial<N>>,
    s: Vec<SparsePolynomial<N>>,
    m: Vec<Monomial<N>>,
    b: Vec<LinearBinomial<N>>,
    q: Vec<QuadraticTrinomial<N>>,
}

enum Put<N> {
    Nothing,
    D(Polynomial<N>),
    S(SparsePolynomial<N>),
    M(Monomial<N>),
    B(LinearBinomial<N>),
    Q(QuadraticTrinomial<N>),
}

/// What a step saw: the name of the operation and its result.
type Out<N> = (&'static str, String, Put<N>);

trait Use: Copy + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// The number of kinds of operations.
    const KINDS: usize;
    fn coefficient(rng: &mut Rng) -> Self;
    fn zero_() -> Self;
    /// One operation of the public API on operands from the pool, which only sees them by reference
    /// (or as clones).
    fn step(rng: &mut Rng, p: &Pool<Self>) -> Out<Self>;
}

fn pool<N: Use>(rng: &mut Rng) -> Pool<N>
where
    Polynomial<N>: Clone,
{
    let c = |rng: &mut Rng| if rng.chance(25) { N::zero_() } else { N::coefficient(rng) };
    let n = 3;
    let max = if cfg!(miri) { 6 } else { 14 };
    Pool {
        d: (0..n)
            .map(|_| {
                let len = if !cfg!(miri) && rng.chance(8) { rng.usize(150) } else { rng.usize(max) };
                let mut terms: Vec<N> = Vec::with_capacity(len);
                for _ in 0..len {
                    terms.push(c(rng));
                }
                Polynomial { terms }
            })
            .collect(),
        s: (0..n)
            .map(|_| {
                let k = rng.usize(6);
                SparsePolynomial { terms: (0..k).map(|_| (degree(rng, 1 << 20), c(rng))).collect() }
            })
            .collect(),
        m: (0..n)
            .map(|_| {
                let k = c(rng);
                let mut m = Monomial { coefficient: k, deg: 0 };
                m.deg = rng.usize(9);
                m
            })
            .collect(),
        b: (0..n).map(|_| LinearBinomial { coefficients: [c(rng), c(rng)] }).collect(),
        q: (0..n).map(|_| QuadraticTrinomial { coefficients: [c(rng), c(rng), c(rng)] }).collect(),
    }
}

/// The same values at other addresses, with other capacities.
fn moved<N: Use>(p: &Pool<N>, rng: &mut Rng) -> Pool<N> {
    let mut q = p.clone();
    for d in &mut q.d {
        let mut v = Vec::with_capacity(d.terms.len() + rng.usize(40));
        v.extend_from_slice(&d.terms);
        d.terms = v;
    }
    for s in &mut q.s {
        // Another shape of tree.
        let mut t = std::collections::BTreeMap::new();
        for (d, c) in s.terms.iter().rev() {
            t.insert(*d, *c);
        }
        s.terms = t;
    }
    q
}

fn text(x: &impl Debug) -> String {
    format!("{:?}", x)
}

thread_local! {
    static ROOM: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

thread_local! {
    static FORCED: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// The kind of the next operation: any, or the one forced on this thread.
fn kind(rng: &mut Rng, n: usize) -> usize {
    let k = rng.usize(n);
    FORCED.with(std::cell::Cell::get).unwrap_or(k)
}

/// A copy, sometimes with room to spare.
fn own<N: Copy>(p: &Polynomial<N>) -> Polynomial<N> {
    let n = ROOM.with(|r| {
        r.set(r.get() + 1);
        mix(r.get())
    });
    let mut terms = Vec::with_capacity(p.terms.len() + if n % 3 == 0 { (n >> 8) as usize % 50 } else { 0 });
    terms.extend_from_slice(&p.terms);
    Polynomial { terms }
}

macro_rules! shared_ops {
    ($n:ident, $rng:ident, $p:ident, $d:ident, $e:ident, $s:ident, $t:ident, $m:ident, $o:ident, $b:ident, $q:ident, $c:ident, $k:ident, $which:expr, $rest:expr) => {
        match $which {
            0 => put_d("Polynomial+", own($d) + own($e)),
            1 => put_d("&Polynomial*&Polynomial", $d * $e),
            2 => put_d("Polynomial*&Polynomial", own($d) * $e),
            3 => put_d("Polynomial*Polynomial", own($d) * own($e)),
            4 => {
                let mut x = own($d);
                x *= $e;
                put_d("Polynomial*=&", x)
            }
            5 => {
                let mut x = own($d);
                x += own($e);
                put_d("Polynomial+=", x)
            }
            6 => put_d("Polynomial.pow", $d.pow($k)),
            7 => put_d("Polynomial*scalar", own($d) * $c),
            8 => put_s("Sparse+", $s.clone() + $t.clone()),
            9 => put_s("Sparse*&", $s.clone() * $t),
            10 => put_s("Sparse.borrow_mul", $s.borrow_mul($t)),
            11 => {
                let mut x = $s.clone();
                x *= $t;
                put_s("Sparse*=&", x)
            }
            12 => {
                let mut x = $s.clone();
                x += $t.clone();
                put_s("Sparse+=", x)
            }
            13 => put_s("Sparse.pow", $s.pow($k)),
            14 => put_s("Sparse*scalar", $s.clone() * $c),
            15 => put_m("Monomial*&", $m.clone() * $o),
            16 => {
                let mut x = $m.clone();
                x *= $o;
                put_m("Monomial*=&", x)
            }
            17 => put_m("Monomial.pow", $m.pow($k)),
            18 => put_b("Linear+", $b.clone() + $p.b[$k % 3].clone()),
            19 => put_q("Quadratic+", $q.clone() + $p.q[$k % 3].clone()),
            20 => see("eval", &($d.eval($c), $m.eval($c), $b.eval($c), $q.eval($c))),
            21 => see("Sparse.eval", &$s.eval($c)),
            22 => see("==", &($d == $e, $s == $t, $m == $o, *$b == $p.b[$k % 3], *$q == $p.q[$k % 3])),
            23 => see("degree", &($d.degree(), $s.degree(), $m.degree(), $b.degree(), $q.degree(), $d.is_zero(), $s.is_zero())),
            24 => see("terms", &($d.terms_as_vec(), $s.terms_as_vec(), $m.terms_as_vec(), $b.terms_as_vec(), $q.terms_as_vec())),
            25 => see("ordered_term_iter", &($d.ordered_term_iter().collect::<Vec<_>>(), $s.ordered_term_iter().collect::<Vec<_>>(), $q.ordered_term_iter().collect::<Vec<_>>())),
            26 => see("term_with_degree", &($d.term_with_degree($k), $s.term_with_degree($k), $m.term_with_degree($k), $b.term_with_degree($k), $q.term_with_degree($k))),
            27 => see("Display", &(format!("{}", $d), format!("{}", $s), format!("{}", $m), format!("{}", $b), format!("{}", $q))),
            28 => {
                let t = format!("{}", $d);
                see("parse", &(Polynomial::<$n>::from_str(&t), SparsePolynomial::<$n>::from_str(&format!("{}", $s)), t.parse::<QuadraticTrinomial<$n>>(), t.parse::<LinearBinomial<$n>>(), t.parse::<Monomial<$n>>()))
            }
            29 => {
                const ODD: [&str; 12] = ["", " ", "x", "3x^2 + 2x - 1", "x^", "^2", "--", "3y", "x^99999999999999999999", "+", "1.5x", "2x^3x"];
                let t = *$rng.pick(&ODD);
                see("parse", &(t.parse::<Polynomial<$n>>(), t.parse::<SparsePolynomial<$n>>(), t.parse::<Monomial<$n>>(), Term::<$n>::from_str(t)))
            }
            30 => {
                let mut x = own($d);
                let r = (x.try_add_term($c, $k), x.try_sub_term($c, $k / 2), x.try_add_term($c, usize::MAX));
                (("Polynomial.try"), text(&(r, &x)), Put::D(x))
            }
            31 => {
                let mut x = $s.clone();
                let r = (x.try_add_term($c, $k), x.try_sub_term($c, $k / 2), x.try_add_term($c, usize::MAX));
                (("Sparse.try"), text(&(r, &x)), Put::Nothing)
            }
            32 => {
                let (mut x, mut y, mut z) = ($m.clone(), $b.clone(), $q.clone());
                let r = (x.try_add_term($c, $k), y.try_add_term($c, $k % 3), z.try_add_term($c, $k % 4));
                ("fixed.try", text(&(r, &x, &y, &z)), Put::M(x))
            }
            33 => put_d("Polynomial<<", own($d) << ($k as i32)),
            34 => put_d("Polynomial>>", own($d) >> ($k as i32)),
            35 => put_s("Sparse<<", $s.clone() << ($k as i32 - 3)),
            36 => put_s("Sparse>>", $s.clone() >> ($k as i32 - 3)),
            37 => put_m("Monomial>>", $m.clone() >> ($k as i32)),
            38 => {
                let mut x = own($d);
                x.trim();
                put_d("trim", x)
            }
            39 => put_d("Polynomial::new", Polynomial::new($d.terms.clone())),
            40 => put_s("Sparse::from", SparsePolynomial::from($d.terms.clone())),
            41 => put_d("from_terms", Polynomial::from_terms(&[($c, $k), ($c, 1), ($c, $k)])),
            42 => {
                let mut x = own($d);
                let r = (add_poly($s.ordered_term_iter().filter(|t| t.1 < 30), &mut x), mul_poly_vec($b.ordered_term_iter(), &$m.terms_as_vec(), &mut x));
                ("accumulate", text(&(r, &x)), Put::D(x))
            }
            43 => {
                let mut x = own($d);
                let y = if $k > 4 { 0 } else { $k };
                x.set_to_zero();
                x.add_term($c, y);
                put_d("set_to_zero", x)
            }
            44 => {
                let (mut x, mut y) = (own($d), $s.clone());
                x *= $c;
                y *= $c;
                see("*=scalar", &(x, y))
            }
            45 => put_d("polynomial!", polynomial![$c, $c, $d.eval($c)]),
            46 => see("Monomial.root", &$m.root()),
            47 => {
                // One value through several operations in place.
                let mut x = own($d);
                let mut y = $s.clone();
                for _ in 0..2 + $k {
                    match $rng.below(12) {
                        0 => x += own($e),
                        1 => x *= $c,
                        2 => x.set_to_zero(),
                        3 => x.trim(),
                        4 => x <<= $k as i32 - 2,
                        5 => x >>= $k as i32 - 2,
                        6 if x.terms.len() < 40 => x *= own($e),
                        7 => x.add_term($c, $k),
                        8 => y += $t.clone(),
                        9 => y >>= 1 + $k as i32,
                        10 => y.set_to_zero(),
                        _ => y <<= $k as i32,
                    }
                }
                ("in place", text(&(&x, &y)), Put::D(x))
            }
            _ => $rest,
        }
    };
}

macro_rules! signed_ops {
    ($n:ident, $d:ident, $e:ident, $s:ident, $t:ident, $m:ident, $b:ident, $q:ident, $c:ident, $k:ident, $which:expr, $rest:expr) => {
        match $which {
            0 => put_d("Polynomial-&", own($d) - $e),
            1 => {
                let mut x = own($d);
                x -= $e;
                put_d("Polynomial-=&", x)
            }
            2 => put_s("Sparse-", $s.clone() - $t.clone()),
            3 => {
                let mut x = $s.clone();
                x -= $t.clone();
                put_s("Sparse-=", x)
            }
            4 => put_d("-Polynomial", -own($d)),
            5 => put_s("-Sparse", -$s.clone()),
            6 => see("-fixed", &(-$m.clone(), -$b.clone(), -$q.clone())),
            7 => see("div_mod", &$d.div_mod($e)),
            8 => put_d("floor_div", $d.floor_div($e)),
            9 => put_d("%", own($d) % own($e)),
            10 => see("Sparse.div_mod", &SparsePolynomial::<$n>::from($d.terms.clone()).div_mod(&SparsePolynomial::from($e.terms.clone()))),
            11 => put_s("Sparse-Polynomial", $s.clone() - own($d)),
            12 => {
                let mut x = own($d);
                let r = sub_poly($q.ordered_term_iter(), &mut x);
                ("sub_poly", text(&(r, &x)), Put::D(x))
            }
            _ => $rest,
        }
    };
}

macro_rules! calculus_ops {
    ($n:ident, $d:ident, $s:ident, $m:ident, $b:ident, $q:ident, $c:ident, $which:expr, $rest:expr) => {
        match $which {
            0 => put_d("derivative", $d.derivative()),
            1 => put_s("Sparse.derivative", $s.derivative()),
            2 => see("fixed.derivative", &($m.derivative(), $b.derivative(), $q.derivative())),
            3 => {
                let i = $d.integral();
                see("integral", &(i.inner(), i.replace_c($c), i.eval($c, $c)))
            }
            4 => see("Sparse.integral", &$s.integral().replace_c($c)),
            5 => see("fixed.integral", &($m.integral().replace_c($c), $b.integral().inner(), $q.integral().replace_c($c))),
            _ => $rest,
        }
    };
}

macro_rules! quadratic_ops {
    ($b:ident, $q:ident, $which:expr) => {
        match $which {
            0 => see("Quadratic.roots", &($q.discriminant(), $q.roots(), $b.root())),
            1 => see("Quadratic.real_factors", &$q.real_factors()),
            _ => see("Quadratic.complex_factors", &$q.complex_factors()),
        }
    };
}

fn put_d<N: Use>(name: &'static str, x: Polynomial<N>) -> Out<N> {
    (name, text(&x), Put::D(x))
}
fn put_s<N: Use>(name: &'static str, x: SparsePolynomial<N>) -> Out<N> {
    (name, text(&x), Put::S(x))
}
fn put_m<N: Use>(name: &'static str, x: Monomial<N>) -> Out<N> {
    (name, text(&x), Put::M(x))
}
fn put_b<N: Use>(name: &'static str, x: LinearBinomial<N>) -> Out<N> {
    (name, text(&x), Put::B(x))
}
fn put_q<N: Use>(name: &'static str, x: QuadraticTrinomial<N>) -> Out<N> {
    (name, text(&x), Put::Q(x))
}
fn see<N: Use>(name: &'static str, x: &impl Debug) -> Out<N> {
    (name, text(x), Put::Nothing)
}

macro_rules! usable {
    ($($n:ident, $coefficient:expr, $extra:expr, |$rng:ident, $p:ident, $d:ident, $e:ident, $s:ident, $t:ident, $m:ident, $o:ident, $b:ident, $q:ident, $c:ident, $k:ident, $w:ident| $rest:expr;)*) => {$(
        impl Use for $n {
            const NAME: &'static str = stringify!($n);
            const KINDS: usize = 48 + $extra;
            fn coefficient(rng: &mut Rng) -> $n { let f: fn(&mut Rng) -> $n = $coefficient; f(rng) }
            fn zero_() -> $n { 0 as $n }
            fn step($rng: &mut Rng, $p: &Pool<$n>) -> Out<$n> {
                let ($d, $e) = ($rng.pick(&$p.d), $rng.pick(&$p.d));
                let ($s, $t) = ($rng.pick(&$p.s), $rng.pick(&$p.s));
                let ($m, $o) = ($rng.pick(&$p.m), $rng.pick(&$p.m));
                let ($b, $q) = ($rng.pick(&$p.b), $rng.pick(&$p.q));
                let $c = <$n as Use>::coefficient($rng);
                let $k = $rng.usize(6);
                let $w = kind($rng, Self::KINDS);
                shared_ops!($n, $rng, $p, $d, $e, $s, $t, $m, $o, $b, $q, $c, $k, $w, $rest)
            }
        }
    )*};
}

fn small<T>(rng: &mut Rng, f: impl Fn(i64) -> T) -> T {
    f(if rng.chance(70) { rng.range(-5, 5) } else { rng.range(-100, 100) })
}

usable! {
    u8, |r| small(r, |x| (x.abs() % 7) as u8), 0, |rng, p, d, e, s, t, m, o, b, q, c, k, w| unreachable!();
    u32, |r| small(r, |x| x.unsigned_abs() as u32), 6, |rng, p, d, e, s, t, m, o, b, q, c, k, w| calculus_ops!(u32, d, s, m, b, q, c, w - 48, unreachable!());
    i16, |r| small(r, |x| x as i16), 22, |rng, p, d, e, s, t, m, o, b, q, c, k, w| signed_ops!(i16, d, e, s, t, m, b, q, c, k, w - 48, calculus_ops!(i16, d, s, m, b, q, c, w - 61, quadratic_ops!(b, q, w - 67)));
    i64, |r| small(r, |x| x), 22, |rng, p, d, e, s, t, m, o, b, q, c, k, w| signed_ops!(i64, d, e, s, t, m, b, q, c, k, w - 48, calculus_ops!(i64, d, s, m, b, q, c, w - 61, quadratic_ops!(b, q, w - 67)));
    f32, |r| small(r, |x| x as f32 / 4.), 22, |rng, p, d, e, s, t, m, o, b, q, c, k, w| signed_ops!(f32, d, e, s, t, m, b, q, c, k, w - 48, calculus_ops!(f32, d, s, m, b, q, c, w - 61, quadratic_ops!(b, q, w - 67)));
    f64, |r| small(r, |x| x as f64 / 4.), 24, |rng, p, d, e, s, t, m, o, b, q, c, k, w| signed_ops!(f64, d, e, s, t, m, b, q, c, k, w - 48, calculus_ops!(f64, d, s, m, b, q, c, w - 61, match w - 67 {
        0 => see("roots", &Polynomial { terms: d.terms.iter().take(6).cloned().collect::<Vec<f64>>() }.roots()),
        1 => see("Sparse.roots", &SparsePolynomial::from(e.terms.iter().take(5).cloned().collect::<Vec<f64>>()).roots()),
        _ => quadratic_ops!(b, q, w - 69),
    }));
}

/// One step, with a panic (an overflow, or a division by zero) as one possible result.
fn step<N: Use>(rng: &mut Rng, p: &Pool<N>) -> Out<N> {
    match guarded(|| N::step(rng, p)) {
        Ok(o) => o,
        Err(m) => ("panic", m, Put::Nothing),
    }
}

struct Trace {
    lines: Vec<u64>,
    text: Vec<String>,
    keep: bool,
}

impl Trace {
    fn new(keep: bool) -> Self {
        Trace { lines: vec![], text: vec![], keep }
    }
    fn push(&mut self, name: &str, result: &str) {
        self.lines.push(hash_bytes(name.as_bytes()) ^ mix(hash_bytes(result.as_bytes())));
        if self.keep {
            self.text.push(format!("{}: {:.300}", name, result));
        }
    }
}

/// Keeps the pool from growing out of hand.
fn put<N: Use>(p: &mut Pool<N>, rng: &mut Rng, x: Put<N>) {
    let (dense, many) = if cfg!(miri) { (16, 10) } else { (200, 60) };
    let i = rng.usize(3);
    match x {
        Put::D(x) if x.terms.len() <= dense => p.d[i] = x,
        Put::S(x) if x.terms.len() <= many && x.terms.keys().all(|d| *d < 1 << 40) => p.s[i] = x,
        Put::M(x) if x.deg < 50 => p.m[i] = x,
        Put::B(x) => p.b[i] = x,
        Put::Q(x) => p.q[i] = x,
        _ => {}
    }
}

/// A history of operations whose results feed later ones. Operands must not change.
fn history<N: Use>(seed: u64, steps: usize, shift: u64, keep: bool, names: &mut impl FnMut(&'static str)) -> (Trace, Vec<String>) {
    let mut rng = Rng::new(seed);
    let mut noise = Rng::new(shift);
    let mut p = pool::<N>(&mut rng);
    let mut trace = Trace::new(keep);
    let mut problems = vec![];
    let mut held: Vec<Vec<u8>> = vec![];
    for _ in 0..steps {
        if shift != 0 {
            // Other addresses and capacities than the last time.
            p = moved(&p, &mut noise);
            held.push(vec![7; noise.usize(300)]);
            if held.len() > 8 {
                held.swap_remove(0);
            }
        }
        let check = !cfg!(miri) && rng.chance(30);
        let before = if check { text(&p) } else { String::new() };
        let (name, result, x) = step(&mut rng, &p);
        names(name);
        if check && text(&p) != before {
            problems.push(format!("{}: an operand changed: {:.500} became {:.500}", name, before, text(&p)));
        }
        trace.push(name, &result);
        put(&mut p, &mut rng, x);
    }
    (trace, problems)
}

fn differ(ctx: &mut Ctx, what: &str, a: &Trace, b: &Trace) {
    ctx.bump("traces compared");
    ctx.add("results compared", a.lines.len() as u64);
    if a.lines == b.lines {
        return;
    }
    let i = a.lines.iter().zip(&b.lines).position(|(x, y)| x != y).unwrap_or(a.lines.len().min(b.lines.len()));
    let at = |t: &Trace| t.text.get(i).cloned().unwrap_or_default();
    ctx.fail(format!("{}: operation {} gave {} and {}", what, i, at(a), at(b)));
}

const STEPS: usize = if cfg!(miri) { 10 } else { 40 };

fn repeat<N: Use>(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut names = vec![];
    let (a, problems) = history::<N>(seed, STEPS, 0, true, &mut |n| names.push(n));
    for p in problems {
        ctx.fail(format!("{}: {}", N::NAME, p));
    }
    for n in names {
        ctx.bump(n);
    }
    // Other operations in between.
    let other = ctx.rng.u64();
    let k = ctx.rng.usize(STEPS);
    history::<N>(other, k, 0, false, &mut |_| {});
    let shift = ctx.rng.u64();
    let (b, _) = history::<N>(seed, STEPS, shift, true, &mut |_| {});
    if !(cfg!(miri) && N::NAME.starts_with('f')) {
        differ(ctx, &format!("{}: history repeated", N::NAME), &a, &b);
    }
    ctx.distinct(a.lines.iter().fold(hash_bytes(N::NAME.as_bytes()), |h, l| mix(h ^ l)));
    ctx.sample(|| format!("{}: {}", N::NAME, a.text.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
}

/// Several threads use the same operands.
fn concurrent<N: Use>(ctx: &mut Ctx) {
    let p = Arc::new(pool::<N>(&mut ctx.rng));
    let before = text(&*p);
    let threads = 2 + ctx.rng.usize(if cfg!(miri) { 2 } else { 5 });
    let steps = if cfg!(miri) { 5 } else { 12 };
    let seed = ctx.rng.u64();
    // Half of the time all do the same.
    let own = ctx.rng.bool();
    let run = move |p: &Pool<N>, i: usize, stagger: bool| {
        let mut rng = Rng::new(seed ^ if own { mix(i as u64) } else { 0 });
        let mut trace = Trace::new(true);
        for k in 0..steps {
            let (name, result, x) = step(&mut rng, p);
            trace.push(name, &result);
            // Dropping a result while others work.
            drop(x);
            if stagger && mix(seed ^ (i * 100 + k) as u64) % 3 == 0 {
                std::thread::yield_now();
            }
        }
        trace
    };
    let barrier = Arc::new(Barrier::new(threads));
    let traces: Vec<Trace> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|i| {
                let (p, barrier) = (p.clone(), barrier.clone());
                s.spawn(move || {
                    barrier.wait();
                    run(&p, i, true)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    for (i, t) in traces.iter().enumerate() {
        let alone = run(&p, i, false);
        if !(cfg!(miri) && N::NAME.starts_with('f')) {
            differ(ctx, &format!("{}: thread {} of {} and alone", N::NAME, i, threads), t, &alone);
        }
    }
    ctx.check(text(&*p) == before, || format!("{}: shared operands changed from {:.500} to {:.500}", N::NAME, before, text(&*p)));
    ctx.distinct(traces.iter().flat_map(|t| &t.lines).fold(hash_bytes(N::NAME.as_bytes()), |h, l| mix(h ^ l)));
    ctx.bump(&format!("{} threads", threads));
    ctx.sample(|| format!("{}: {} threads on {:.300}", N::NAME, threads, before));
}

/// Threads which do nothing but one kind of operation, over and over, each time with the same few operands.
fn hammer<N: Use>(ctx: &mut Ctx) {
    let w = (ctx.index / 6) as usize % N::KINDS;
    let p = pool::<N>(&mut ctx.rng);
    let sets = if cfg!(miri) { 1 } else { 6 };
    let mut known: Vec<(u64, String)> = vec![];
    let mut name = "";
    FORCED.with(|f| f.set(Some(w)));
    for _ in 0..4 * sets {
        let seed = ctx.rng.u64();
        let (n, result, _) = step(&mut Rng::new(seed), &p);
        if n != "panic" || cfg!(miri) {
            name = n;
            known.push((seed, result));
        }
        if known.len() == sets {
            break;
        }
    }
    FORCED.with(|f| f.set(None));
    if known.is_empty() {
        ctx.bump("hammers which only panic");
        return;
    }
    let (threads, each) = if cfg!(miri) { (2, 1) } else { (6, if ctx.thorough { 20_000 } else { 2_500 }) };
    let barrier = Barrier::new(threads);
    let found: Vec<Option<String>> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|i| {
                let (p, known, barrier) = (&p, &known, &barrier);
                s.spawn(move || {
                    FORCED.with(|f| f.set(Some(w)));
                    barrier.wait();
                    for j in 0..each {
                        let (seed, want) = &known[(j + i) % known.len()];
                        let (n, got, _) = step(&mut Rng::new(*seed), p);
                        if got != *want {
                            return Some(format!("{} gave {:.300} at first, then {:.300} (thread {}, call {})", n, want, got, i, j));
                        }
                    }
                    None
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    ctx.bump(&format!("hammered {}", name));
    ctx.add("hammered calls", (threads * each) as u64);
    for f in found.into_iter().flatten() {
        if !(cfg!(miri) && N::NAME.starts_with('f')) {
            ctx.fail(format!("{}: {}", N::NAME, f));
        }
    }
    ctx.distinct(known.iter().fold(hash_bytes(N::NAME.as_bytes()), |h, k| mix(h ^ hash_bytes(k.1.as_bytes()))));
    ctx.sample(|| format!("{}: {} with {} sets of operands on {} threads", N::NAME, name, known.len(), threads));
}

/// Everything allocated is freed.
fn balance<N: Use>(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    // Once to let lazily created state of the standard library appear.
    history::<N>(seed, STEPS, 0, false, &mut |_| {});
    let (lines, u) = measure(|| {
        let (t, _) = history::<N>(seed, STEPS, 0, false, &mut |_| {});
        t.lines.iter().fold(0u64, |h, l| mix(h ^ l))
    });
    ctx.add("bytes allocated", u.requested);
    ctx.add("allocations", u.count);
    ctx.check(u.left == 0, || format!("{}: {} bytes left of {} ({} allocations) after a history and all its values are gone", N::NAME, u.left, u.requested, u.count));
    ctx.distinct(lines ^ hash_bytes(N::NAME.as_bytes()));
    ctx.sample(|| format!("{}: {:?}", N::NAME, u));
}

/// Coefficient operations which panic at a chosen point: operands by reference stay as they were,
/// nothing leaks, and the operation works when repeated.
fn unwind(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[2u64, 3, 7, 101]);
    set_modulus(n);
    let zn = |rng: &mut Rng| Zn(rng.below(n));
    let dense = |rng: &mut Rng| {
        let len = rng.usize(9);
        Polynomial { terms: (0..len).map(|_| zn(rng)).collect() }
    };
    let sparse = |rng: &mut Rng| {
        let len = rng.usize(6);
        SparsePolynomial { terms: (0..len).map(|_| (rng.usize(20), zn(rng))).collect() }
    };
    let (d, e, s, t) = (dense(&mut ctx.rng), dense(&mut ctx.rng), sparse(&mut ctx.rng), sparse(&mut ctx.rng));
    let c = zn(&mut ctx.rng);
    let k = ctx.rng.usize(6);
    let which = ctx.rng.below(16);
    let op = || -> String {
        match which {
            0 => text(&(&d * &e)),
            1 => text(&(own(&d) * own(&e))),
            2 => text(&(own(&d) - &e)),
            3 => text(&d.div_mod(&e)),
            4 => text(&d.floor_div(&e)),
            5 => text(&(own(&d) % own(&e))),
            6 => text(&d.pow(k)),
            7 => text(&d.eval(c)),
            8 => text(&s.borrow_mul(&t)),
            9 => text(&s.div_mod(&t)),
            10 => text(&s.pow(k)),
            11 => text(&(s.clone() + t.clone())),
            12 => text(&(s.clone() - t.clone())),
            13 => {
                let mut x = own(&d);
                x *= &e;
                text(&x)
            }
            14 => {
                let mut x = own(&d);
                x -= &e;
                text(&x)
            }
            _ => {
                let mut x = s.clone();
                x *= &t;
                text(&x)
            }
        }
    };
    let before = text(&(&d, &e, &s, &t));
    let full = match guarded(|| counted(1 << 20, op)) {
        Ok(x) => x,
        Err(_) => return,
    };
    let ops = full.1.muls;
    let fuel = ctx.rng.below(ops.max(1));
    let first = guarded(|| counted(fuel, op));
    let (r, u) = measure(|| guarded(|| counted(fuel, op)).map(|_| ()).map_err(|_| ()));
    drop(first);
    if r.is_err() {
        ctx.bump("operations interrupted by a panic");
    }
    ctx.check(u.left == 0, || format!("operation {} over Z/{} interrupted after {} steps: {} bytes leaked ({})", which, n, fuel, u.left, before));
    ctx.check(text(&(&d, &e, &s, &t)) == before, || format!("operation {} over Z/{}: an operand changed: {}", which, n, before));
    let again = guarded(|| counted(1 << 20, op));
    ctx.check(matches!(&again, Ok(x) if x.0 == full.0), || format!("operation {} over Z/{}: {} at first, then {}", which, n, full.0, brief(&again.map(|x| x.0))));
    ctx.distinct(hash_bytes(before.as_bytes()) ^ mix(which * 1000 + fuel));
    ctx.sample(|| format!("operation {} over Z/{} after {} of {} steps", which, n, fuel, ops));
}

macro_rules! six {
    ($f:ident, $ctx:ident) => {
        match $ctx.index % 6 {
            0 => $f::<u8>($ctx),
            1 => $f::<u32>($ctx),
            2 => $f::<i16>($ctx),
            3 => $f::<i64>($ctx),
            4 => $f::<f32>($ctx),
            _ => $f::<f64>($ctx),
        }
    };
}
fn s_repeat(ctx: &mut Ctx) {
    six!(repeat, ctx)
}
fn s_concurrent(ctx: &mut Ctx) {
    six!(concurrent, ctx)
}
fn s_hammer(ctx: &mut Ctx) {
    six!(hammer, ctx)
}
fn s_balance(ctx: &mut Ctx) {
    six!(balance, ctx)
}

/// Runs cases in this process, without the runner: for the interpreter.
fn interpret(n: u64, seed: u64) -> ! {
    let mut bad = false;
    let sections: [(&str, fn(&mut Ctx)); 4] = [("repeat", s_repeat), ("concurrent", s_concurrent), ("balance", s_balance), ("unwind", unwind)];
    let mut seen = std::collections::BTreeMap::new();
    for i in 0..n {
        for (name, f) in &sections {
            let mut ctx = Ctx::standalone(mix(seed) ^ mix(i) ^ hash_bytes(name.as_bytes()));
            ctx.index = i;
            f(&mut ctx);
            for p in ctx.take_problems() {
                println!("PROBLEM: {} {}: {}", name, i, p);
                bad = true;
            }
            for (k, v) in ctx.counters() {
                *seen.entry(k.clone()).or_insert(0u64) += v;
            }
        }
        println!("INTERPRETED {:?}", seen.values().sum::<u64>());
    }
    // Every kind of operation on two threads, a share of them in each process.
    for w in (0..if n == 0 { 0 } else { 72 }).filter(|w| w % 8 == seed % 8) {
        for t in [2, 5] {
            let mut ctx = Ctx::standalone(mix(seed) ^ mix(w));
            ctx.index = w * 6 + t;
            s_hammer(&mut ctx);
            for p in ctx.take_problems() {
                println!("PROBLEM: hammer {}: {}", ctx.index, p);
                bad = true;
            }
            for (k, v) in ctx.counters() {
                *seen.entry(k.clone()).or_insert(0u64) += v;
            }
        }
    }
    println!("INTERPRETED {:?}", seen.values().sum::<u64>());
    std::process::exit(if bad { 3 } else { 0 })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("interpret") {
        let num = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
        interpret(num(2, 6), num(3, 1));
    }
    run::main(Spec {
        id: "C17",
        rule: "Histories of operations from the whole public API run on pools of polynomials of six coefficient types. Each history is repeated after other operations, with its operands at other addresses and capacities, and all results must be equal; threads share operands by reference and must see what one thread alone sees; each kind of operation is hammered by six threads at once and must always give its first result; the operands by reference are compared before and after; allocations are balanced; coefficient operations that panic midway must not leak or change operands. The same runs under the address sanitizer and under Miri. Non-trivial: every history; distinct by the digest of its results.",
        assumptions: &["Miri's float functions are not deterministic, so under Miri the results of float histories are not compared.", "Data races are only looked for by Miri."],
        sections: vec![
            Section { name: "repeat", quick: 24_000, thorough: 600_000, f: s_repeat },
            Section { name: "concurrent", quick: 9_000, thorough: 200_000, f: s_concurrent },
            Section { name: "hammer", quick: 864, thorough: 8_640, f: s_hammer },
            Section { name: "balance", quick: 12_000, thorough: 300_000, f: s_balance },
            Section { name: "unwind", quick: 60_000, thorough: 1_500_000, f: unwind },
        ],
        known: vec![],
    })
}
