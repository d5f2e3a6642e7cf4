//! Equations with planted solutions, written in many ways.

use crate::engine::Src;
use crate::expr::*;

/// Rounds to a few decimals so that the literal is exactly what is meant
pub fn short(v: f64, places: usize) -> f64 {
    format!("{v:.places$}").parse().unwrap()
}

fn term(s: &mut Src, c: f64, x: &str) -> Ex {
    let v = name(x);
    if c == 1.0 && s.chance(1, 2) {
        return v;
    }
    if c == -1.0 && s.chance(1, 2) {
        return Ex::Neg(Box::new(v));
    }
    match s.below(4) {
        0 | 1 => bin('*', num(c), v),
        2 => bin('*', v, num(c)),
        _ => bin('/', bin('*', num(2.0 * c), v), num(2.0)),
    }
}

fn sum(s: &mut Src, mut terms: Vec<Ex>) -> Ex {
    if terms.is_empty() {
        return Ex::Num("0".into());
    }
    s.shuffle(&mut terms);
    let mut it = terms.into_iter();
    let mut e = it.next().unwrap();
    for t in it {
        e = match t {
            Ex::Neg(t) if s.chance(1, 2) => bin('-', e, *t),
            t => bin('+', e, t),
        };
    }
    e
}

fn negate(e: Ex) -> Ex {
    match e {
        Ex::Neg(a) => *a,
        e => Ex::Neg(Box::new(e)),
    }
}

/// The two sides of an equation sum(c*x) + sum(extra) = rhs, its terms spread over both sides.
/// `consts` are names with values that may be put on both sides.
pub fn equation(s: &mut Src, coefs: &[(f64, &str)], extra: Vec<Ex>, rhs: f64, consts: &[(String, f64)]) -> (Ex, Ex) {
    let (mut l, mut r): (Vec<Ex>, Vec<Ex>) = (vec![], vec![]);
    let style = s.below(3);
    for &(c, x) in coefs {
        if style == 2 && s.chance(1, 3) {
            r.push(term(s, -c, x));
        } else {
            l.push(term(s, c, x));
        }
    }
    for e in extra {
        if style == 2 && s.chance(1, 3) {
            r.push(negate(e));
        } else {
            l.push(e);
        }
    }
    let mut rhs = rhs;
    if !consts.is_empty() && s.chance(1, 3) {
        // a known name, with its value accounted for
        let (n, v) = s.pick(consts);
        l.push(name(n));
        rhs += v;
    }
    if style != 0 && s.chance(1, 3) {
        l.push(num(-rhs));
        if r.is_empty() {
            r.push(Ex::Num("0".into()));
        }
    } else {
        r.push(num(rhs));
    }
    if l.is_empty() {
        l.push(Ex::Num("0".into()));
    }
    let (l, r) = (sum(s, l), sum(s, r));
    if s.chance(1, 6) { (r, l) } else { (l, r) }
}

/// Residual of an equation and how uncertain the reference is about it
pub fn residual(l: &Ex, r: &Ex, env: &Env) -> Option<(f64, f64)> {
    match (eval(l, env), eval(r, env)) {
        (Ev::Is(a), Ev::Is(b)) => Some(((a.v - b.v).abs(), 2.0 * (a.err + b.err) + 1e-14 * (a.v.abs() + b.v.abs()))),
        _ => None,
    }
}
