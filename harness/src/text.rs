//! Well-formed polynomial texts with a known value, and an independent reader of polynomial texts.

use crate::coef::{coef, Coef};
use crate::dy::Dy;
use crate::poly::{nz, MP};
use std::fmt::Write;
use crate::rng::Rng;

/// One term of a text.
#[derive(Clone, Debug)]
pub struct TermText {
    /// '+', '-', or nothing (first term only).
    pub sign: Option<char>,
    pub num: Option<String>,
    pub x: bool,
    pub deg: Option<String>,
    /// The value it denotes.
    pub coeff: Dy,
    pub degree: usize,
}

impl TermText {
    pub fn plain(&self) -> String {
        let mut s = String::new();
        if let Some(c) = self.sign {
            s.push(c);
        }
        s.push_str(self.num.as_deref().unwrap_or(""));
        if self.x {
            s.push('x');
        }
        if let Some(d) = &self.deg {
            s.push('^');
            s.push_str(d);
        }
        s
    }
}

/// How many zeros to add: mostly a few.
fn zeros(rng: &mut Rng) -> usize {
    match rng.below(20) {
        0 => 1 + rng.usize(30),
        1 => ((1usize << (3 + rng.usize(7))) + rng.usize(5)).saturating_sub(2),
        _ => 1 + rng.usize(3),
    }
}

/// A numeral for a non-negative value which the type has, and its value.
fn numeral<N: Coef>(rng: &mut Rng, c: &Dy) -> Option<String> {
    let n: N = N::from_dy(c)?;
    let mut s = n.to_string();
    if let Some(r) = s.strip_prefix('-') {
        s = r.to_string();
    }
    if N::FLOAT && s.len() < 40 {
        let has_dot = s.contains('.');
        match rng.below(6) {
            0 if has_dot => s.push_str(&"0".repeat(zeros(rng))),
            1 if !has_dot => s.push('.'),
            2 if !has_dot => s.push_str(".0"),
            3 if s.starts_with("0.") => {
                s.remove(0);
            }
            _ => {}
        }
    }
    if rng.chance(10) {
        s = format!("{}{}", "0".repeat(zeros(rng)), s);
    }
    Some(s)
}

/// A term with the given value, written in one of the ways there are. None if it can not be written
/// (a negative coefficient of an unsigned type, or a magnitude out of range).
pub fn term<N: Coef>(rng: &mut Rng, c: &Dy, degree: usize, first: bool) -> Option<TermText> {
    let neg = c.is_neg();
    if neg && !N::SIGNED {
        return None;
    }
    let sign = match (neg, first && rng.chance(80)) {
        (true, _) => Some('-'),
        (false, true) => None,
        (false, false) => Some('+'),
    };
    let x = degree > 0 || rng.chance(15);
    let deg = if degree > 1 || (x && degree == 0) || (degree == 1 && rng.chance(20)) {
        let mut d = degree.to_string();
        if rng.chance(10) {
            d = format!("{}{}", "0".repeat(zeros(rng)), d);
        }
        Some(d)
    } else {
        None
    };
    // The smallest signed integer has no magnitude of its own, but its text has.
    let num = if x && c.abs() == Dy::one() && rng.chance(75) {
        None
    } else {
        Some(match N::from_dy(&c.abs()) {
            Some(_) => numeral::<N>(rng, &c.abs())?,
            None => N::from_dy(c)?.to_string().trim_start_matches('-').to_string(),
        })
    };
    Some(TermText { sign, num, x, deg, coeff: c.clone(), degree })
}

/// A float term with an arbitrary decimal numeral; its value is what the standard library reads.
pub fn decimal_term<N: Coef>(rng: &mut Rng, degree: usize, first: bool) -> Option<TermText> {
    let mut t = term::<N>(rng, &Dy::int(3), degree, first)?;
    let digits = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect() };
    let long = rng.chance(10);
    let mut count = |rng: &mut Rng| match (long, rng.bool()) {
        (true, true) => rng.usize(if N::BITS == 24 { 39 } else { 300 }),
        (true, false) => rng.usize(60),
        _ => rng.usize(12),
    };
    let (a, b) = (count(rng), count(rng));
    let mut s = digits(rng, a);
    if b > 0 || a == 0 {
        s.push('.');
        if long && rng.bool() {
            s.push_str(&"0".repeat(zeros(rng).min(if N::BITS == 24 { 40 } else { 300 })));
        }
        s.push_str(&digits(rng, b.max(1)));
    } else if long && rng.bool() {
        s.push_str(&"0".repeat(zeros(rng).min(300)));
    }
    let v: N = s.parse().ok()?;
    let mut c = v.dy()?;
    t.num = Some(s);
    if rng.bool() {
        t.sign = Some('-');
        c = c.neg();
    }
    t.coeff = c;
    Some(t)
}

/// Adds the separators which are allowed: spaces anywhere, commas and underscores between digits.
pub fn noisy(rng: &mut Rng, t: &TermText, level: u64) -> String {
    let plain: Vec<char> = t.plain().chars().collect();
    let mut s = String::new();
    for (i, c) in plain.iter().enumerate() {
        if i > 0 && c.is_ascii_digit() && plain[i - 1].is_ascii_digit() && rng.below(100) < level {
            for _ in 0..1 + rng.usize(2) {
                s.push(*rng.pick(&[',', '_', ' ']));
            }
        } else if rng.below(100) < level {
            s.push_str(&" ".repeat(1 + rng.usize(3)));
        }
        s.push(*c);
    }
    if rng.below(100) < level {
        s.push(' ');
    }
    s
}

/// A list of terms with the sum they denote; all partial sums, in any order, are in range.
pub fn terms<N: Coef>(rng: &mut Rng, n: usize, pick: &mut dyn FnMut(&mut Rng) -> usize) -> (Vec<TermText>, MP) {
    let mut v: Vec<TermText> = vec![];
    let mut sum = MP::zero();
    let mut abs = MP::zero();
    let bits = 1 + rng.below(u64::from(N::BITS)) as u32;
    let s = if N::FLOAT { rng.range(-6, 2) } else { 0 };
    for _ in 0..n {
        let d = pick(rng);
        let c = match rng.below(12) {
            0 => Dy::zero(),
            1 => Dy::one(),
            2 if N::SIGNED => Dy::int(-1),
            3 if !N::FLOAT => N::min_v().dy().unwrap(),
            4 if !N::FLOAT => N::max_v().dy().unwrap(),
            _ => coef::<N>(rng, bits, s),
        };
        let mut a = abs.clone();
        a.add_term(&c.abs(), d);
        let alone = abs.get(d).is_zero();
        if !(N::fits(&a.get(d)) || (alone && N::from_dy(&c).is_some())) {
            continue;
        }
        if let Some(t) = term::<N>(rng, &c, d, v.is_empty()) {
            abs = a;
            sum.add_term(&c, d);
            v.push(t);
        }
    }
    (v, sum)
}

/// What a text means.
#[derive(Debug, Clone, PartialEq)]
pub enum Meaning<N> {
    Terms(Vec<(N, usize)>),
    /// Not well-formed.
    Bad,
    /// Not settled by the documentation.
    Unspecified,
}

/// Reads a text independently of the library.
pub fn read<N: Coef>(s: &str) -> Meaning<N> {
    let chars: Vec<char> = s.chars().collect();
    if chars.iter().all(|c| *c == ' ') {
        return Meaning::Bad;
    }
    let mut unspecified = false;
    for (i, c) in chars.iter().enumerate() {
        match c {
            '0'..='9' | 'x' | '^' | '+' | '-' | '.' | ' ' => {}
            ',' | '_' => {
                // Only between digits (through other separators).
                let sep = |c: &&char| !matches!(c, ' ' | ',' | '_');
                let before = chars[..i].iter().rev().find(sep);
                let after = chars[i + 1..].iter().find(sep);
                let digit = |c: Option<&char>| c.map_or(false, |c| c.is_ascii_digit());
                if !(digit(before) && digit(after)) {
                    unspecified = true;
                }
            }
            c if c.is_whitespace() => unspecified = true,
            _ => return Meaning::Bad,
        }
    }
    let clean: Vec<char> = chars.iter().copied().filter(|c| !matches!(c, ' ' | ',' | '_') && !c.is_whitespace()).collect();
    if clean.is_empty() {
        return Meaning::Bad;
    }
    let mut tokens: Vec<String> = vec![];
    for (i, c) in clean.iter().enumerate() {
        if i == 0 || *c == '+' || *c == '-' {
            tokens.push(String::new());
        }
        tokens.last_mut().unwrap().push(*c);
    }
    let mut terms = vec![];
    for t in &tokens {
        let (neg, body) = match t.chars().next() {
            Some('-') => (true, &t[1..]),
            Some('+') => (false, &t[1..]),
            _ => (false, &t[..]),
        };
        let (num, rest) = match body.find('x') {
            None => (body, None),
            Some(k) => (&body[..k], Some(&body[k + 1..])),
        };
        if num.contains('^') {
            return Meaning::Bad;
        }
        let numeral = if num.is_empty() {
            if rest.is_none() {
                return Meaning::Bad;
            }
            "1".to_string()
        } else {
            num.to_string()
        };
        let dots = numeral.matches('.').count();
        if dots > 1 || (dots == 1 && (!N::FLOAT || numeral.len() == 1)) {
            return Meaning::Bad;
        }
        if neg && !N::SIGNED {
            if numeral.chars().all(|c| c == '0') {
                unspecified = true;
            } else {
                return Meaning::Bad;
            }
        }
        let text = format!("{}{}", if neg && N::SIGNED { "-" } else { "" }, numeral);
        let Ok(c) = text.parse::<N>() else { return Meaning::Bad };
        if c.dy().is_none() {
            unspecified = true;
        }
        let degree = match rest {
            None => 0,
            Some("") => 1,
            Some(r) => {
                if r.contains('x') {
                    return Meaning::Bad;
                }
                if let Some(d) = r.strip_prefix('^') {
                    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                        return Meaning::Bad;
                    }
                    match d.parse::<usize>() {
                        Ok(d) => d,
                        Err(_) => return Meaning::Bad,
                    }
                } else if r.chars().all(|c| c.is_ascii_digit()) {
                    // 5x3
                    unspecified = true;
                    0
                } else {
                    return Meaning::Bad;
                }
            }
        };
        terms.push((c, degree));
    }
    if unspecified {
        Meaning::Unspecified
    } else {
        Meaning::Terms(terms)
    }
}

/// Whether sums of coefficients might leave the type's range.
pub fn may_overflow<N: Coef>(s: &str) -> bool {
    if N::FLOAT {
        return false;
    }
    let mut sum = Dy::zero();
    for t in s.split(['+', '-']) {
        let digits: String = t.chars().take_while(|c| *c != 'x').filter(char::is_ascii_digit).collect();
        let digits = digits.trim_start_matches('0');
        if digits.len() > 45 {
            // Does not parse on its own.
            continue;
        }
        let m: num::BigInt = if digits.is_empty() { 1.into() } else { digits.parse().unwrap() };
        let m = Dy::big(m);
        if N::from_dy(&m).is_some() || N::from_dy(&m.neg()).is_some() {
            sum = sum.add(&m);
        }
    }
    !N::fits(&sum)
}

/// The magnitude of a coefficient, as text.
fn magnitude_text<N: Coef>(c: &Dy) -> String {
    if N::FLOAT {
        nz::<N>(&c.abs()).to_string()
    } else {
        let c = c.abs().normal();
        (c.m << (c.e as usize)).to_string()
    }
}

/// The canonical text of a value.
pub fn canonical<N: Coef>(p: &MP) -> String {
    let mut s = String::new();
    for (d, c) in p.t.iter().rev() {
        match (s.is_empty(), c.is_neg()) {
            (true, true) => s.push('-'),
            (true, false) => {}
            (false, true) => s.push_str(" - "),
            (false, false) => s.push_str(" + "),
        }
        if *d == 0 || c.abs() != Dy::one() {
            s.push_str(&magnitude_text::<N>(c));
        }
        match d {
            0 => {}
            1 => s.push('x'),
            d => {
                let _ = write!(s, "x^{}", d);
            }
        }
    }
    if s.is_empty() {
        s.push('0');
    }
    s
}
