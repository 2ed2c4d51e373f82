//! C16: the generic accumulate functions and macros add, subtract and multiply into any sink.
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::{poly_add, poly_mul, poly_sub, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SparsePolynomial, TryAddError};
use vh::rng::{hash_bytes, mix};
use vh::sink::{reasons, Op};
use vh::*;

type Terms<N> = Vec<(N, usize)>;
type Res = Result<(), TryAddError>;

/// One polynomial of each type.
struct Args<N> {
    d: Polynomial<N>,
    s: SparsePolynomial<N>,
    m: Monomial<N>,
    b: LinearBinomial<N>,
    t: QuadraticTrinomial<N>,
}

/// What needs the crate's private numeric traits.
trait Acc: Coef {
    fn add_into<S: MutablePolynomial<Self>>(terms: impl Iterator<Item = (Self, usize)>, sink: &mut S) -> Res;
    fn sub_into<S: MutablePolynomial<Self>>(terms: impl Iterator<Item = (Self, usize)>, sink: &mut S) -> Res;
    fn mul_into<S: MutablePolynomial<Self>>(l: impl Iterator<Item = (Self, usize)>, r: &[(Self, usize)], sink: &mut S) -> Res;
    /// The macros without sink; which arguments, see `ADDS`, `SUBS` and `MULS`.
    fn macro_add(which: usize, a: &Args<Self>) -> Polynomial<Self>;
    fn macro_sub(which: usize, a: &Args<Self>) -> Polynomial<Self>;
    fn macro_mul(which: usize, a: &Args<Self>) -> Polynomial<Self>;
    fn into_add<S: MutablePolynomial<Self>>(which: usize, a: &Args<Self>, sink: &mut S) -> Res;
    fn into_sub<S: MutablePolynomial<Self>>(which: usize, a: &Args<Self>, sink: &mut S) -> Res;
}

trait MulSink<N>: PolyT<N>
where
    N: Coef,
{
    fn into_mul(&mut self, which: usize, a: &Args<N>) -> Res;
}

/// The arguments of the macro calls below.
const ADDS: [&[u8]; 6] = [b"d", b"ds", b"smb", b"tdsmb", b"dd", b"b"];
const SUBS: [&[u8]; 5] = [b"ds", b"mbt", b"sdbm", b"sd", b"dd"];
const MULS: [&[u8]; 6] = [b"ds", b"smb", b"btmd", b"tb", b"dd", b"sd"];
const INTO_ADDS: [&[u8]; 5] = [b"d", b"sd", b"bmt", b"m", b"tsb"];
const INTO_MULS: [&[u8]; 5] = [b"m", b"d", b"sm", b"mbm", b"t"];

macro_rules! acc {
    ($($n:ident)*) => {$(
        impl Acc for $n {
            fn add_into<S: MutablePolynomial<$n>>(terms: impl Iterator<Item = ($n, usize)>, sink: &mut S) -> Res { add_poly(terms, sink) }
            fn sub_into<S: MutablePolynomial<$n>>(terms: impl Iterator<Item = ($n, usize)>, sink: &mut S) -> Res { sub_poly(terms, sink) }
            fn mul_into<S: MutablePolynomial<$n>>(l: impl Iterator<Item = ($n, usize)>, r: &[($n, usize)], sink: &mut S) -> Res { mul_poly_vec(l, r, sink) }
            fn macro_add(which: usize, a: &Args<$n>) -> Polynomial<$n> {
                match which {
                    0 => poly_add!(a.d),
                    1 => poly_add!(a.d, a.s),
                    2 => poly_add!(a.s, a.m, a.b),
                    3 => poly_add!(a.t, a.d, a.s, a.m, a.b),
                    4 => poly_add!(a.d, a.d),
                    _ => poly_add!(a.b),
                }
            }
            fn macro_sub(which: usize, a: &Args<$n>) -> Polynomial<$n> {
                match which {
                    0 => poly_sub!(a.d, a.s),
                    1 => poly_sub!(a.m, a.b, a.t),
                    2 => poly_sub!(a.s, a.d, a.b, a.m),
                    3 => poly_sub!(a.s, a.d),
                    _ => poly_sub!(a.d, a.d),
                }
            }
            fn macro_mul(which: usize, a: &Args<$n>) -> Polynomial<$n> {
                match which {
                    0 => poly_mul!(a.d, a.s),
                    1 => poly_mul!(a.s, a.m, a.b),
                    2 => poly_mul!(a.b, a.t, a.m, a.d),
                    3 => poly_mul!(a.t, a.b),
                    4 => poly_mul!(a.d, a.d),
                    _ => poly_mul!(a.s, a.d),
                }
            }
            fn into_add<S: MutablePolynomial<$n>>(which: usize, a: &Args<$n>, sink: &mut S) -> Res {
                match which {
                    0 => poly_add!(*sink; a.d),
                    1 => poly_add!(*sink; a.s, a.d),
                    2 => poly_add!(*sink; a.b, a.m, a.t),
                    3 => poly_add!(*sink; a.m),
                    _ => poly_add!(*sink; a.t, a.s, a.b),
                }
            }
            fn into_sub<S: MutablePolynomial<$n>>(which: usize, a: &Args<$n>, sink: &mut S) -> Res {
                match which {
                    0 => poly_sub!(*sink; a.d),
                    1 => poly_sub!(*sink; a.s, a.d),
                    2 => poly_sub!(*sink; a.b, a.m, a.t),
                    3 => poly_sub!(*sink; a.m),
                    _ => poly_sub!(*sink; a.t, a.s, a.b),
                }
            }
        }
        acc!(@sink $n Polynomial SparsePolynomial Monomial LinearBinomial QuadraticTrinomial);
    )*};
    (@sink $n:ident $($t:ident)*) => {$(
        impl MulSink<$n> for $t<$n> {
            fn into_mul(&mut self, which: usize, a: &Args<$n>) -> Res {
                match which {
                    0 => poly_mul!(*self; a.m),
                    1 => poly_mul!(*self; a.d),
                    2 => poly_mul!(*self; a.s, a.m),
                    3 => poly_mul!(*self; a.m, a.b, a.m),
                    _ => poly_mul!(*self; a.t),
                }
            }
        }
    )*};
}
acc!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);

/// A sink of the user's own, which records what it is given and fails at a chosen call.
#[derive(Clone, Debug, Default)]
struct Recorder<N> {
    calls: Vec<(Op, N, usize)>,
    fail_at: Option<(usize, TryAddError)>,
    after_failure: usize,
}

impl<N: Coef> Recorder<N> {
    fn call(&mut self, op: Op, c: N, d: usize) -> Res {
        if let Some((at, e)) = self.fail_at {
            if self.calls.len() == at {
                self.after_failure += 1;
                return Err(e);
            }
        }
        self.calls.push((op, c, d));
        Ok(())
    }
    fn value(&self) -> MP {
        let mut v = MP::zero();
        for (op, c, d) in &self.calls {
            let c = c.dy().unwrap();
            v.add_term(&if *op == Op::Sub { c.neg() } else { c }, *d);
        }
        v
    }
}

impl<N: Coef> MutablePolynomial<N> for Recorder<N> {
    fn try_add_term(&mut self, c: N, d: usize) -> Res {
        self.call(Op::Add, c, d)
    }
    fn try_sub_term(&mut self, c: N, d: usize) -> Res {
        self.call(Op::Sub, c, d)
    }
}

/// A list of terms, in any order and with repeated degrees.
fn stream<N: Coef>(rng: &mut Rng, n: usize, bits: u32, degrees: impl Fn(&mut Rng) -> usize) -> Terms<N> {
    (0..n)
        .map(|_| {
            let d = degrees(rng);
            let c = if rng.chance(8) { N::some_zero(rng) } else { nz(&coef::<N>(rng, bits, 0)) };
            (c, d)
        })
        .collect()
}

fn total<N: Coef>(t: &[(N, usize)]) -> MP {
    let mut v = MP::zero();
    for (c, d) in t {
        v.add_term(&c.dy().unwrap(), *d);
    }
    v
}

fn absolute<N: Coef>(t: &[(N, usize)]) -> MP {
    let mut v = MP::zero();
    for (c, d) in t {
        v.add_term(&c.dy().unwrap().abs(), *d);
    }
    v
}

fn start<N: Coef, P: PolyT<N>>(ctx: &mut Ctx, bits: u32) -> (P, MP) {
    let n = match P::T {
        "LinearBinomial" => 2,
        "QuadraticTrinomial" => 3,
        _ => ctx.rng.usize(8),
    };
    let mut v = gen_dense::<N>(&mut ctx.rng, n, bits, 0);
    if P::T == "Monomial" {
        let c = coef::<N>(&mut ctx.rng, bits, 0);
        let d = ctx.rng.usize(4);
        v = MP::term(c, d);
    }
    if ctx.rng.chance(25) {
        v = MP::zero();
    }
    (P::build(&v, &mut ctx.rng).unwrap(), v)
}

fn degree_for(rng: &mut Rng, ty: &str, v: &MP) -> usize {
    match ty {
        "Polynomial" => match rng.below(60) {
            0 => usize::MAX - rng.usize(3),
            1 => (1usize << (40 + rng.usize(24))) - rng.usize(3),
            2 => rng.usize(300),
            _ => rng.usize(9),
        },
        "SparsePolynomial" => {
            if rng.chance(30) {
                degree(rng, usize::MAX)
            } else {
                rng.usize(8)
            }
        }
        "Monomial" => match (rng.below(12), v.degree()) {
            (0, _) => rng.usize(4),
            (_, Some(d)) => d,
            _ => 2,
        },
        _ => match rng.below(30) {
            0 => degree(rng, usize::MAX),
            1 => 3,
            2 => 2,
            _ => rng.usize(2),
        },
    }
}

/// What the stream makes of v: the value, and the reasons if a term is refused.
/// None: some step is not specified.
fn expect<N: Coef>(ty: &str, v: &MP, op: Op, terms: &[(N, usize)]) -> Option<(MP, usize, Vec<TryAddError>)> {
    let mut v = v.clone();
    for (i, (c, d)) in terms.iter().enumerate() {
        let c = c.dy().unwrap();
        match reasons::<N>(ty, &v, op, &c, *d, *d < 1 << 36) {
            None => {
                // A zero term: it must not matter, so only use it where it can not fail.
                let in_place = match ty {
                    "SparsePolynomial" => N::SIGNED || op == Op::Add,
                    "Polynomial" => *d < 1 << 20 && (N::SIGNED || op == Op::Add),
                    "Monomial" => v.degree() == Some(*d),
                    "LinearBinomial" => *d <= 1,
                    _ => *d <= 2,
                };
                if !in_place {
                    return None;
                }
            }
            Some(r) if !r.is_empty() => return Some((v, i, r)),
            Some(_) => {
                v.add_term(&if op == Op::Sub { c.neg() } else { c }, *d);
                N::from_dy(&v.get(*d))?;
            }
        }
    }
    Some((v, terms.len(), vec![]))
}

fn judge<N: Acc, P: PolyT<N>>(ctx: &mut Ctx, what: &str, got: Option<Res>, p: &P, want: &(MP, usize, Vec<TryAddError>)) {
    let Some(got) = got else {
        ctx.fail(what.to_string());
        return;
    };
    let ok = match got {
        Ok(()) => want.2.is_empty(),
        Err(e) => {
            ctx.bump(&format!("{:?} observed", e));
            want.2.contains(&e)
        }
    };
    ctx.check(ok, || format!("{}: result {:?}, expected {:?} (empty: success)", what, got, want.2));
    match p.val() {
        Ok(x) => ctx.check(x == want.0, || {
            format!("{}: left {}, expected {} ({} terms applied)", what, x.show(), want.0.show(), want.1)
        }),
        Err(e) => ctx.fail(format!("{}: {}", what, e)),
    }
}

fn sink<N: Acc, P: PolyT<N> + MutablePolynomial<N>>(ctx: &mut Ctx) {
    let top = u64::from(N::BITS).saturating_sub(4).max(1);
    let bits = 1 + ctx.rng.below(top) as u32;
    let (mut p, v) = start::<N, P>(ctx, bits);
    let error = match P::T {
        "Monomial" => TryAddError::TooManyTerms,
        _ => TryAddError::DegreeOutOfBounds,
    };
    let n = if ctx.rng.chance(6) { 14 + ctx.rng.usize(300) } else { ctx.rng.usize(14) };
    let first = v.clone();
    let terms: Terms<N> = stream(&mut ctx.rng, n, bits, |rng| degree_for(rng, P::T, &first));
    let kind = ctx.rng.below(3);
    let h = total(&terms).hash() ^ v.hash() ^ mix(kind) ^ hash_bytes(N::NAME.as_bytes()) ^ hash_bytes(P::T.as_bytes());
    match kind {
        0 | 1 => {
            let op = if kind == 0 { Op::Add } else { Op::Sub };
            let terms = if op == Op::Sub && !N::SIGNED {
                // Take away what is there, mostly.
                let mut left = v.clone();
                let mut out = vec![];
                for (c, d) in terms {
                    let have = left.get(d);
                    let c = c.dy().unwrap();
                    if have.is_zero() {
                        if ctx.rng.chance(15) {
                            out.push((nz::<N>(&c), d));
                        }
                        continue;
                    }
                    let c = if c > have || ctx.rng.chance(30) { have } else { c };
                    left.add_term(&c.neg(), d);
                    out.push((nz::<N>(&c), d));
                }
                out
            } else {
                terms
            };
            if !absolute(&terms).add(&v.abs()).fits::<N>() {
                return;
            }
            let Some(want) = expect(P::T, &v, op, &terms) else { return };
            let what = format!("{}_poly of {:?} into {}", if kind == 0 { "add" } else { "sub" }, terms, brief(&p));
            ctx.log(|| what.clone());
            let mut pulled = 0usize;
            let got = {
                let it = terms.iter().cloned().inspect(|_| pulled += 1);
                match op {
                    Op::Add => ctx.op("add_poly", || N::add_into(it, &mut p)),
                    Op::Sub => ctx.op("sub_poly", || N::sub_into(it, &mut p)),
                }
            };
            judge(ctx, &what, got, &p, &want);
            ctx.sample(|| what.clone());
        }
        _ => {
            let m = ctx.rng.usize(6);
            let small = (bits / 2).max(1);
            let l: Terms<N> = stream(&mut ctx.rng, n.min(6), small, |rng| {
                if P::T == "Monomial" {
                    rng.usize(2)
                } else {
                    degree_for(rng, P::T, &first) / 3
                }
            });
            let r: Terms<N> = stream(&mut ctx.rng, m, small, |rng| {
                rng.usize(if P::T == "Polynomial" || P::T == "SparsePolynomial" { 9 } else { 2 })
            });
            if !absolute(&l).mul(&absolute(&r)).add(&v.abs()).fits::<N>() {
                return;
            }
            let what = format!("mul_poly_vec of {:?} and {:?} into {}", l, r, brief(&p));
            ctx.log(|| what.clone());
            let product: Terms<N> = l.iter().flat_map(|(c, d)| r.iter().map(move |(c2, d2)| (*c * *c2, d + d2))).collect();
            let Some(want) = expect(P::T, &v, Op::Add, &product) else { return };
            let got = ctx.op("mul_poly_vec", || N::mul_into(l.iter().cloned(), &r, &mut p));
            if want.2.is_empty() {
                judge(ctx, &what, got, &p, &want);
            } else {
                // Which terms came before the failing one depends on the order.
                ctx.check(got == Some(Err(error)), || format!("{}: result {:?}, expected {:?}", what, got, error));
                ctx.bump("failing products");
            }
            ctx.sample(|| what.clone());
        }
    }
    ctx.distinct(h);
}

fn sinks<N: Acc>(ctx: &mut Ctx)
where
    Polynomial<N>: MutablePolynomial<N>,
    SparsePolynomial<N>: MutablePolynomial<N>,
    Monomial<N>: MutablePolynomial<N>,
    LinearBinomial<N>: MutablePolynomial<N>,
    QuadraticTrinomial<N>: MutablePolynomial<N>,
{
    match ctx.index / 14 % 5 {
        0 => sink::<N, Polynomial<N>>(ctx),
        1 => sink::<N, SparsePolynomial<N>>(ctx),
        2 => sink::<N, Monomial<N>>(ctx),
        3 => sink::<N, LinearBinomial<N>>(ctx),
        _ => sink::<N, QuadraticTrinomial<N>>(ctx),
    }
}

/// A recording sink: what the functions ask of it, and what they do when it fails.
fn recorder<N: Acc>(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(6) { 12 + ctx.rng.usize(300) } else { ctx.rng.usize(12) };
    let bits = (N::BITS / 2).saturating_sub(3).max(1);
    let terms: Terms<N> = stream(&mut ctx.rng, n, bits, |rng| degree(rng, usize::MAX / 4));
    let m = ctx.rng.usize(6);
    let other: Terms<N> = stream(&mut ctx.rng, m, bits, |rng| degree(rng, usize::MAX / 4));
    let error = *ctx.rng.pick(&[TryAddError::DegreeOutOfBounds, TryAddError::TooManyTerms, TryAddError::CanNotNegate]);
    let kind = ctx.rng.below(3);
    let calls = if kind == 2 { n * m } else { n };
    let fail_at = if ctx.rng.bool() && calls > 0 { Some((ctx.rng.usize(calls), error)) } else { None };
    let mut r = Recorder {
        calls: vec![],
        fail_at,
        after_failure: 0,
    };
    let what = format!(
        "{} of {:?} {:?} failing at {:?}",
        ["add_poly", "sub_poly", "mul_poly_vec"][kind as usize],
        terms,
        if kind == 2 { &other[..] } else { &[] },
        fail_at
    );
    ctx.log(|| what.clone());
    ctx.sample(|| format!("{}: {}", N::NAME, what));
    ctx.distinct(total(&terms).hash() ^ total(&other).hash() ^ mix(kind * 1000 + fail_at.map_or(999, |f| f.0 as u64)) ^ hash_bytes(N::NAME.as_bytes()));
    if kind == 2 && !absolute(&terms).mul(&absolute(&other)).fits::<N>() {
        return;
    }
    let got = match kind {
        0 => ctx.op("add_poly", || N::add_into(terms.iter().cloned(), &mut r)),
        1 => ctx.op("sub_poly", || N::sub_into(terms.iter().cloned(), &mut r)),
        _ => ctx.op("mul_poly_vec", || N::mul_into(terms.iter().cloned(), &other, &mut r)),
    };
    let Some(got) = got else {
        ctx.fail(what);
        return;
    };
    // The sink only fails if it was really called that often (zero terms may be left out).
    let failed = r.after_failure > 0;
    ctx.check(got == if failed { Err(error) } else { Ok(()) }, || format!("{}: result {:?}", what, got));
    ctx.check(r.after_failure <= 1, || format!("{}: {} calls after the sink failed", what, r.after_failure - 1));
    if failed {
        ctx.bump("injected failures");
    }
    let sign = |v: MP| if kind == 1 { v.neg() } else { v };
    if kind < 2 {
        // The accepted terms are a prefix of the stream, but for zeros.
        let live: Vec<_> = terms.iter().filter(|(c, _)| !c.is_zero()).cloned().collect();
        let done: Vec<_> = r
            .calls
            .iter()
            .filter(|(_, c, _)| !c.is_zero())
            .map(|(op, c, d)| ((if (*op == Op::Sub) == (kind == 1) { *c } else { N::zero() - *c }), *d))
            .collect();
        ctx.check(done.len() <= live.len() && total(&done) == total(&live[..done.len().min(live.len())]), || {
            format!("{}: applied {:?}", what, r.calls)
        });
        ctx.check(failed || done.len() == live.len(), || format!("{}: applied only {:?}", what, r.calls));
    }
    if !failed {
        let want = sign(if kind == 2 { total(&terms).mul(&total(&other)) } else { total(&terms) });
        ctx.check(r.value() == want, || format!("{}: applied {}, expected {}", what, r.value().show(), want.show()));
    }
    ctx.bump("recorded runs");
    ctx.add("recorded calls", r.calls.len() as u64);
}

fn args<N: Coef>(ctx: &mut Ctx, bits: u32) -> (Args<N>, impl Fn(u8) -> MP) {
    let n = ctx.rng.usize(5);
    let d = gen_dense::<N>(&mut ctx.rng, n, bits, 0);
    let n = ctx.rng.usize(4);
    let s = if ctx.rng.chance(20) {
        MP::zero()
    } else {
        gen_sparse::<N>(&mut ctx.rng, n, 40, bits, 0)
    };
    let m = if ctx.rng.chance(20) {
        MP::zero()
    } else {
        MP::term(coef::<N>(&mut ctx.rng, bits, 0), ctx.rng.usize(3))
    };
    let b = gen_dense::<N>(&mut ctx.rng, 2, bits, 0);
    let t = gen_dense::<N>(&mut ctx.rng, 3, bits, 0);
    let a = Args {
        d: PolyT::build(&d, &mut ctx.rng).unwrap(),
        s: PolyT::build(&s, &mut ctx.rng).unwrap(),
        m: PolyT::build(&m, &mut ctx.rng).unwrap(),
        b: PolyT::build(&b, &mut ctx.rng).unwrap(),
        t: PolyT::build(&t, &mut ctx.rng).unwrap(),
    };
    (a, move |k| match k {
        b'd' => d.clone(),
        b's' => s.clone(),
        b'm' => m.clone(),
        b'b' => b.clone(),
        _ => t.clone(),
    })
}

fn clone<N: Coef>(a: &Args<N>) -> String {
    format!("dense {}, sparse {}, {:?}, {:?}, {:?}", brief(&a.d), brief(&a.s), a.m, a.b, a.t)
}

/// The terms of these polynomials, one after the other.
fn chain<N: Coef>(which: &[u8], val: &impl Fn(u8) -> MP) -> Terms<N> {
    which
        .iter()
        .flat_map(|k| val(*k).t.iter().rev().map(|(d, c)| (nz::<N>(c), *d)).collect::<Vec<_>>())
        .collect()
}

fn macros<N: Acc>(ctx: &mut Ctx) {
    let top = u64::from(N::BITS / 4).max(2);
    let bits = (1 + ctx.rng.below(top) as u32).min(N::BITS / 4).max(1);
    let (a, val) = args::<N>(ctx, bits);
    let before = format!("{:?} {:?} {:?} {:?} {:?}", a.d, a.s, a.m, a.b, a.t);
    let what = clone(&a);
    ctx.sample(|| format!("{}: {}", N::NAME, what));
    let mut h = hash_bytes(N::NAME.as_bytes());
    for k in b"dsmbt" {
        h = mix(h ^ val(*k).hash());
    }
    ctx.distinct(h);
    for (i, w) in ADDS.iter().enumerate() {
        let size = w.iter().fold(MP::zero(), |s, k| s.add(&val(*k).abs()));
        if !size.fits::<N>() {
            ctx.bump("skipped: out of range");
            continue;
        }
        let want = w.iter().fold(MP::zero(), |s, k| s.add(&val(*k)));
        let r = ctx.op("poly_add!", || N::macro_add(i, &a));
        same(ctx, &format!("poly_add! of {:?} of {}", String::from_utf8_lossy(w), what), r, &want);
    }
    for (i, w) in SUBS.iter().enumerate() {
        let size = w.iter().fold(MP::zero(), |s, k| s.add(&val(*k).abs()));
        if !size.fits::<N>() {
            ctx.bump("skipped: out of range");
            continue;
        }
        let Some((want, _, r)) = expect::<N>("Polynomial", &val(w[0]), Op::Sub, &chain::<N>(&w[1..], &val)) else {
            ctx.bump("skipped: below zero");
            continue;
        };
        if !r.is_empty() {
            ctx.bump("skipped: below zero");
            continue;
        }
        let r = ctx.op("poly_sub!", || N::macro_sub(i, &a));
        same(ctx, &format!("poly_sub! of {:?} of {}", String::from_utf8_lossy(w), what), r, &want);
    }
    for (i, w) in MULS.iter().enumerate() {
        let size = w.iter().fold(MP::constant(Dy::one()), |s, k| s.mul(&val(*k).abs()));
        if !size.fits::<N>()
            || w.iter()
                .scan(MP::constant(Dy::one()), |s, k| {
                    *s = s.mul(&val(*k).abs());
                    Some(s.fits::<N>())
                })
                .any(|ok| !ok)
        {
            ctx.bump("skipped: out of range");
            continue;
        }
        let want = w.iter().fold(MP::constant(Dy::one()), |s, k| s.mul(&val(*k)));
        let r = ctx.op("poly_mul!", || N::macro_mul(i, &a));
        same(ctx, &format!("poly_mul! of {:?} of {}", String::from_utf8_lossy(w), what), r, &want);
    }
    let after = format!("{:?} {:?} {:?} {:?} {:?}", a.d, a.s, a.m, a.b, a.t);
    ctx.check(before == after, || format!("the arguments changed from {} to {}", before, after));
}

fn macro_sink<N: Acc, P: MulSink<N> + MutablePolynomial<N>>(ctx: &mut Ctx) {
    let top = u64::from(N::BITS / 4).max(2);
    let bits = (1 + ctx.rng.below(top) as u32).min(N::BITS / 4).max(1);
    let (a, val) = args::<N>(ctx, bits);
    let (p, v) = start::<N, P>(ctx, bits);
    let what = format!("{} and {}", brief(&p), clone(&a));
    ctx.sample(|| format!("{}: {}", N::NAME, what));
    let mut h = hash_bytes(N::NAME.as_bytes()) ^ v.hash() ^ hash_bytes(P::T.as_bytes());
    for k in b"dsmbt" {
        h = mix(h ^ val(*k).hash());
    }
    ctx.distinct(h);
    for (i, w) in INTO_ADDS.iter().enumerate() {
        let size = w.iter().fold(v.abs(), |s, k| s.add(&val(*k).abs()));
        if !size.fits::<N>() {
            ctx.bump("skipped: out of range");
            continue;
        }
        for op in [Op::Add, Op::Sub] {
            let terms = chain::<N>(w, &val);
            let Some(want) = expect(P::T, &v, op, &terms) else {
                ctx.bump("skipped: below zero");
                continue;
            };
            if !want.2.is_empty() && !N::SIGNED && op == Op::Sub {
                // The macros go on with the next argument, which might go below zero.
                ctx.bump("skipped: below zero");
                continue;
            }
            let name = if op == Op::Add { "poly_add! with sink" } else { "poly_sub! with sink" };
            let text = format!("{} of {:?} of {}", name, String::from_utf8_lossy(w), what);
            let mut p = p.own();
            let got = ctx.op(name, || if op == Op::Add { N::into_add(i, &a, &mut p) } else { N::into_sub(i, &a, &mut p) });
            if want.2.is_empty() {
                judge::<N, P>(ctx, &text, got, &p, &want);
            } else {
                ctx.bump("failing macro calls");
                ctx.check(matches!(&got, Some(Err(e)) if want.2.contains(e)), || {
                    format!("{}: result {:?}, expected {:?}", text, got, want.2)
                });
            }
        }
    }
    for (i, w) in INTO_MULS.iter().enumerate() {
        if w.iter()
            .scan(v.abs(), |s, k| {
                *s = s.mul(&val(*k).abs());
                Some(s.fits::<N>())
            })
            .any(|ok| !ok)
        {
            ctx.bump("skipped: out of range");
            continue;
        }
        let text = format!("poly_mul! with sink of {:?} of {}", String::from_utf8_lossy(w), what);
        // The product has to fit at every step.
        let mut v = v.clone();
        let mut fits = true;
        let mut unclear = false;
        for k in w.iter() {
            let f = val(*k);
            let top = match P::T {
                "LinearBinomial" => 1,
                "QuadraticTrinomial" => 2,
                _ => usize::MAX,
            };
            // Terms which cancel later count too.
            fits &= v.abs().mul(&f.abs()).degree().map_or(true, |d| d <= top);
            if P::T == "Monomial" {
                let n = v.abs().mul(&f.abs()).t.len();
                fits &= n <= 1;
                unclear |= n > 1 && f.t.len() > 1 && v.t.len() > 1;
            }
            v = v.mul(&f);
        }
        if unclear {
            continue;
        }
        let mut p = p.own();
        let got = ctx.op("poly_mul! with sink", || p.into_mul(i, &a));
        if fits {
            judge::<N, P>(ctx, &text, got, &p, &(v, 0, vec![]));
        } else {
            ctx.bump("failing macro calls");
            let error = match P::T {
                "Monomial" => TryAddError::TooManyTerms,
                _ => TryAddError::DegreeOutOfBounds,
            };
            ctx.check(got == Some(Err(error)), || format!("{}: result {:?}, but the product does not fit", text, got));
        }
    }
}

fn macro_sinks<N: Acc>(ctx: &mut Ctx)
where
    Polynomial<N>: MutablePolynomial<N> + MulSink<N>,
    SparsePolynomial<N>: MutablePolynomial<N> + MulSink<N>,
    Monomial<N>: MutablePolynomial<N> + MulSink<N>,
    LinearBinomial<N>: MutablePolynomial<N> + MulSink<N>,
    QuadraticTrinomial<N>: MutablePolynomial<N> + MulSink<N>,
{
    match ctx.index / 14 % 5 {
        0 => macro_sink::<N, Polynomial<N>>(ctx),
        1 => macro_sink::<N, SparsePolynomial<N>>(ctx),
        2 => macro_sink::<N, Monomial<N>>(ctx),
        3 => macro_sink::<N, LinearBinomial<N>>(ctx),
        _ => macro_sink::<N, QuadraticTrinomial<N>>(ctx),
    }
}

/// Arguments which are expressions: temporaries, references, calls, each evaluated once and in order.
fn expressions(ctx: &mut Ctx) {
    let n = 2 + ctx.rng.usize(3);
    let vals: Vec<MP> = (0..n)
        .map(|_| {
            let l = ctx.rng.usize(5);
            gen_dense::<i64>(&mut ctx.rng, l, 9, 0)
        })
        .collect();
    let dense: Vec<Polynomial<i64>> = vals.iter().map(|v| dense(v, &mut ctx.rng)).collect();
    let sparse: Vec<SparsePolynomial<i64>> = vals.iter().map(|v| sparse(v, &mut ctx.rng)).collect();
    let c = ctx.rng.range(-9, 9);
    let what = format!("{} of {}", dense.iter().map(brief).collect::<Vec<_>>().join(" and "), c);
    ctx.sample(|| what.clone());
    ctx.distinct(vals.iter().fold(c as u64, |h, v| mix(h ^ v.hash())));
    let sum = |vs: &[MP]| vs.iter().fold(MP::zero(), |s, v| s.add(v));
    let product = |vs: &[MP]| vs.iter().fold(MP::constant(Dy::one()), |s, v| s.mul(v));
    // A stack of arguments: each evaluation takes the next.
    let mut taken = 0;
    let mut next = || {
        taken += 1;
        dense[(taken - 1) % n].clone()
    };
    let r = ctx.op("poly_add! of calls", || match n {
        2 => poly_add!(next(), next()),
        3 => poly_add!(next(), next(), next()),
        _ => poly_add!(next(), next(), next(), next()),
    });
    same(ctx, &format!("poly_add! of calls: {}", what), r, &sum(&vals));
    ctx.check(taken == n, || format!("poly_add! of {} calls: evaluated {} of them", n, taken));
    taken = 0;
    let mut next = || {
        taken += 1;
        sparse[(taken - 1) % n].clone()
    };
    let r = ctx.op("poly_sub! of calls", || match n {
        2 => poly_sub!(next(), next()),
        3 => poly_sub!(next(), next(), next()),
        _ => poly_sub!(next(), next(), next(), next()),
    });
    same(ctx, &format!("poly_sub! of calls: {}", what), r, &vals[0].sub(&sum(&vals[1..])));
    ctx.check(taken == n, || format!("poly_sub! of {} calls: evaluated {} of them", n, taken));
    taken = 0;
    let mut next = || {
        taken += 1;
        dense[(taken - 1) % n].clone()
    };
    let r = ctx.op("poly_mul! of calls", || match n {
        2 => poly_mul!(next(), next()),
        3 => poly_mul!(next(), next(), next()),
        _ => poly_mul!(next(), next(), next(), next()),
    });
    same(ctx, &format!("poly_mul! of calls: {}", what), r, &product(&vals));
    ctx.check(taken == n, || format!("poly_mul! of {} calls: evaluated {} of them", n, taken));
    // Operators and references as arguments.
    let (d, s) = (&dense[0], &sparse[1]);
    let r = ctx.op("poly_add! of expressions", || poly_add!(d.own() + dense[1].clone(), s.own() * c, Monomial::new(c, 3)));
    let want = vals[0].add(&vals[1]).add(&vals[1].scale(&Dy::int(c.into()))).add(&MP::term(Dy::int(c.into()), 3));
    same(ctx, &format!("poly_add! of expressions: {}", what), r, &want);
    let r = ctx.op("poly_sub! of expressions", || poly_sub!(d, s.own() - sparse[0].clone(), LinearBinomial::new([c, 1])));
    let want = vals[0].add(&vals[0]).sub(&vals[1]).sub(&MP::term(Dy::int(c.into()), 1)).sub(&MP::constant(Dy::one()));
    same(ctx, &format!("poly_sub! of expressions: {}", what), r, &want);
    let r = ctx.op("poly_mul! of expressions", || poly_mul!(-d.own(), s, QuadraticTrinomial::new([1, 0, c])));
    let q = MP::term(Dy::one(), 2).add(&MP::constant(Dy::int(c.into())));
    same(ctx, &format!("poly_mul! of expressions: {}", what), r, &vals[0].neg().mul(&vals[1]).mul(&q));
    // Accumulating into a field and into an element.
    let mut sinks = vec![dense[0].clone(), dense[1].clone()];
    let r = ctx.op("poly_add! into an element", || poly_add!(sinks[1]; d, s.own() * c));
    ctx.check(r == Some(Ok(())), || format!("poly_add! into an element: {:?}", r));
    same(ctx, &format!("poly_add! into an element: {}", what), Some(sinks[1].clone()), &vals[1].add(&vals[0]).add(&vals[1].scale(&Dy::int(c.into()))));
    let r = ctx.op("poly_mul! into an element", || poly_mul!(sinks[0]; s, d));
    ctx.check(r == Some(Ok(())), || format!("poly_mul! into an element: {:?}", r));
    same(ctx, &format!("poly_mul! into an element: {}", what), Some(sinks[0].clone()), &vals[0].mul(&vals[1]).mul(&vals[0]));
}

/// Long streams and products of long lists over i64.
fn long_case(ctx: &mut Ctx) {
    let l = long::size(&mut ctx.rng, 12);
    let v = long::list(&mut ctx.rng, l, 1000);
    let k = long::size(&mut ctx.rng, 15);
    let top = 1 + long::size(&mut ctx.rng, 13);
    let t: Vec<(i64, usize)> = (0..k).map(|_| (ctx.rng.range(1, 1000), ctx.rng.usize(top))).collect();
    let (la, lb) = (long::size(&mut ctx.rng, 10), long::size(&mut ctx.rng, 10));
    let list = |rng: &mut Rng, l: usize| -> Vec<(i64, usize)> { (0..l).map(|_| (if rng.bool() { 1 } else { -1 } * rng.range(1, 1000), rng.usize(400))).collect() };
    let (a, b) = (list(&mut ctx.rng, la), list(&mut ctx.rng, lb));
    ctx.distinct(mix(l as u64) ^ mix(k as u64).rotate_left(3) ^ mix((la * 70_000 + lb) as u64).rotate_left(6));
    ctx.max("terms of a stream", k as u64);
    ctx.max("products of terms", (la * lb) as u64);
    let what = format!("start of length {}, {} terms below degree {}, products of {} and {} terms", l, k, top, la, lb);
    ctx.sample(|| what.clone());
    let mut sum = v.clone();
    sum.resize(l.max(top), 0);
    let mut dif = sum.clone();
    for (c, d) in &t {
        sum[*d] += c;
        dif[*d] -= c;
    }
    let mut product = v.clone();
    product.resize(l.max(800), 0);
    for (c, d) in &a {
        for (c2, d2) in &b {
            product[d + d2] += c * c2;
        }
    }
    macro_rules! each {
        ($p:expr) => {{
            let p = $p;
            let r = ctx.op("long add_poly", || { let mut q = p.own(); add_poly(t.iter().copied(), &mut q).map(|_| q) });
            ctx.check(matches!(r, Some(Ok(_))), || format!("add_poly, {}: {:?}", what, r.as_ref().map(|r| r.is_ok())));
            long::judge(ctx, || format!("add_poly, {}", what), r.and_then(Result::ok), &sum);
            let r = ctx.op("long sub_poly", || { let mut q = p.own(); sub_poly(t.iter().copied(), &mut q).map(|_| q) });
            ctx.check(matches!(r, Some(Ok(_))), || format!("sub_poly, {}: {:?}", what, r.as_ref().map(|r| r.is_ok())));
            long::judge(ctx, || format!("sub_poly, {}", what), r.and_then(Result::ok), &dif);
            let r = ctx.op("long mul_poly_vec", || { let mut q = p.own(); mul_poly_vec(a.iter().copied(), &b, &mut q).map(|_| q) });
            ctx.check(matches!(r, Some(Ok(_))), || format!("mul_poly_vec, {}: {:?}", what, r.as_ref().map(|r| r.is_ok())));
            long::judge(ctx, || format!("mul_poly_vec, {}", what), r.and_then(Result::ok), &product);
        }};
    }
    let zeros = padding(&mut ctx.rng);
    each!(long::dense(&v, zeros));
    let stored = ctx.rng.bool();
    each!(long::sparse(&v, stored));
}

fn s_sinks(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, sinks(ctx));
}
fn s_recorder(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, recorder(ctx));
}
fn s_macros(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, macros(ctx));
}
fn s_macro_sinks(ctx: &mut Ctx) {
    let i = ctx.index;
    by_type!(all, i, macro_sinks(ctx));
}

fn main() {
    run::main(Spec {
        id: "C16",
        rule: "Streams of terms (any order, repeats, zeros) are added, subtracted and multiplied into every sink type and into a recording sink of the harness which fails at a chosen call; an abstract polynomial says what is accepted, what the error is and what the sink then holds. The macros are called with one to five arguments of all types, with and without sink. Non-trivial: every case; distinct by terms, sink and type.",
        assumptions: &[
            "Coefficients and partial sums stay in range; unsigned subtraction does not go below zero.",
            "Terms with coefficient zero may be passed on or left out.",
            "After an error of a macro with sink, or of a product, only the error is checked (which terms came first is not specified).",
        ],
        sections: vec![
            Section { name: "sinks", quick: 140_000, thorough: 4_200_000, f: s_sinks },
            Section { name: "recorder", quick: 84_000, thorough: 2_100_000, f: s_recorder },
            Section { name: "macros", quick: 42_000, thorough: 1_400_000, f: s_macros },
            Section { name: "expressions", quick: 20_000, thorough: 400_000, f: expressions },
            Section { name: "macro-sinks", quick: 70_000, thorough: 2_100_000, f: s_macro_sinks },
            Section { name: "long", quick: 300, thorough: 8_000, f: long_case },
        ],
        known: vec![],
    })
}
