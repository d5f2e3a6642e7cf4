//! Expressions: generation, rendering, an independent parser, and a reference evaluation with error bounds.

use crate::engine::Src;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ex {
    /// a literal, as written
    Num(String),
    Name(String),
    Neg(Box<Ex>),
    Bin(char, Box<Ex>, Box<Ex>),
    Call(String, Vec<Ex>),
}

pub fn num(v: f64) -> Ex {
    if v < 0.0 || (v == 0.0 && v.is_sign_negative()) {
        let t = format!("{:?}", -v);
        Ex::Neg(Box::new(Ex::Num(if t.contains('e') { plain(-v) } else { t })))
    } else {
        Ex::Num(plain(v))
    }
}
/// A literal of a non-negative number, without an exponent
pub fn plain(v: f64) -> String {
    format!("{v}")
}
pub fn name(n: &str) -> Ex {
    Ex::Name(n.to_string())
}
pub fn bin(op: char, a: Ex, b: Ex) -> Ex {
    Ex::Bin(op, Box::new(a), Box::new(b))
}
pub fn call(f: &str, a: Vec<Ex>) -> Ex {
    Ex::Call(f.to_string(), a)
}

// ------------------------------------------------------------------ what names mean

/// The functions a test may put into a context, by index: arity and definition.
/// The library hands the arguments over last first.
pub const CUSTOM: &[(usize, fn(&[f64]) -> f64, &[f64], f64)] = &[
    // arity, function, coefficients of the arguments in order, constant
    (0, |_| 7.25, &[], 7.25),
    (1, |x| 2.0 * x[0] + 1.0, &[2.0], 1.0),
    (2, |x| x[1] - 2.0 * x[0], &[1.0, -2.0], 0.0),
    (3, |x| x[2] + 10.0 * x[1] + 100.0 * x[0], &[1.0, 10.0, 100.0], 0.0),
    (4, |x| x[3] - 3.0 * x[2] + 5.0 * x[1] - 7.0 * x[0] + 1.0, &[1.0, -3.0, 5.0, -7.0], 1.0),
    (1, |x| -x[0], &[-1.0], 0.0),
    (9, |x| (0..9).map(|i| (i as f64 - 3.0) * x[8 - i]).sum(), &[-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0], 0.0),
];

#[derive(Clone, Debug, PartialEq)]
pub enum Meaning {
    Value(f64),
    /// a function of the library
    Builtin(&'static str, usize),
    Custom(usize),
}
pub type Env = BTreeMap<String, Meaning>;

pub const BUILTINS: &[(&str, usize)] = &[
    ("if", 5), ("sin", 1), ("cos", 1), ("tan", 1), ("arcsin", 1), ("arccos", 1), ("arctan", 1), ("sinh", 1), ("cosh", 1), ("tanh", 1), ("ln", 1), ("log10", 1), ("log", 2), ("abs", 1),
];

/// What the library's default context is documented to hold
pub fn default_env() -> Env {
    let mut e = Env::new();
    for &(n, k) in BUILTINS {
        e.insert(n.into(), Meaning::Builtin(n, k));
    }
    e.insert("pi".into(), Meaning::Value(std::f64::consts::PI));
    e.insert("e".into(), Meaning::Value(std::f64::consts::E));
    e
}
pub fn arity(m: &Meaning) -> Option<usize> {
    match m {
        Meaning::Value(_) => None,
        Meaning::Builtin(_, k) => Some(*k),
        Meaning::Custom(i) => Some(CUSTOM[*i].0),
    }
}

// ------------------------------------------------------------------ names

pub const TRICKY: &[&str] = &[
    "x", "y", "z", "a", "b1", "alpha", "X", "sin2", "sinx", "lnx", "ifx", "absolute", "pi2", "pie", "e1", "ex", "E", "PI", "Pi", "log2", "log100", "inf", "nan", "infinity", "NaN", "INF", "x_1", "x1y", "x_", "e2e", "e5", "tan_", "cosine",
    "if_", "e_", "Sin", "LN", "f", "exp", "x10", "x1", "xx", "p_i", "elsewhere", "endx",
];

pub fn gen_name(s: &mut Src) -> String {
    if s.chance(2, 5) {
        const FIRST: &[u8] = b"abcxyzABCXYZetnklm";
        const REST: &[u8] = b"abe019_xXyZ";
        let mut n = String::new();
        n.push(*s.pick(FIRST) as char);
        let k = s.tail(5, 40);
        let least = if s.chance(1, 40) { s.usize(20, 70) } else { 0 };
        for _ in 0..s.usize(0, k) + least {
            n.push(*s.pick(REST) as char);
        }
        n
    } else {
        s.pick(TRICKY).to_string()
    }
}

/// Distinct names outside `taken`
pub fn gen_names(s: &mut Src, k: usize, taken: &Env) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut tries = 0;
    while out.len() < k {
        let mut n = gen_name(s);
        tries += 1;
        if tries > 20 {
            n = format!("v{}", out.len());
        }
        if !taken.contains_key(&n) && !out.contains(&n) {
            out.push(n);
        }
    }
    out
}

// ------------------------------------------------------------------ generation

pub fn gen_literal(s: &mut Src) -> String {
    match s.weighted(&[8, 4, 3, 1, 1, 1, 1]) {
        0 => s.usize(0, 12).to_string(),
        1 => format!("{}.{}", s.usize(0, 9), s.usize(0, 9)),
        2 => format!("{}.{:03}", s.usize(0, 99), s.usize(0, 999)),
        3 => format!(".{}", s.usize(1, 99)),
        4 => format!("{}.", s.usize(0, 9)),
        5 => format!("{}{}{}", s.usize(1, 9), if s.chance(1, 2) { "E" } else { "e" }, s.usize(0, 4)),
        _ => format!("{}.{}e{}", s.usize(1, 9), s.usize(0, 9), s.usize(0, 3)),
    }
}

pub fn gen_expr(s: &mut Src, env: &Env, depth: usize) -> Ex {
    let values: Vec<&String> = env.iter().filter(|(_, m)| matches!(m, Meaning::Value(_))).map(|(n, _)| n).collect();
    let funcs: Vec<(&String, usize)> = env.iter().filter_map(|(n, m)| arity(m).map(|k| (n, k))).collect();
    gen_inner(s, &values, &funcs, depth)
}

fn gen_inner(s: &mut Src, values: &[&String], funcs: &[(&String, usize)], depth: usize) -> Ex {
    let leaf = depth == 0 || s.chance(1, 4);
    if leaf {
        if !values.is_empty() && s.chance(1, 2) {
            return Ex::Name(s.pick(values).to_string());
        }
        return Ex::Num(gen_literal(s));
    }
    match s.weighted(&[6, 6, 6, 4, 4, 4, if funcs.is_empty() { 0 } else { 6 }]) {
        0 => bin('+', gen_inner(s, values, funcs, depth - 1), gen_inner(s, values, funcs, depth - 1)),
        1 => bin('-', gen_inner(s, values, funcs, depth - 1), gen_inner(s, values, funcs, depth - 1)),
        2 => bin('*', gen_inner(s, values, funcs, depth - 1), gen_inner(s, values, funcs, depth - 1)),
        3 => bin('/', gen_inner(s, values, funcs, depth - 1), gen_inner(s, values, funcs, depth - 1)),
        4 => {
            // mostly small exponents, so that values stay moderate
            let a = gen_inner(s, values, funcs, depth - 1);
            let b = match s.weighted(&[5, 2, 1]) {
                0 => Ex::Num(s.usize(0, 3).to_string()),
                1 => bin('^', Ex::Num(s.usize(1, 3).to_string()), Ex::Num(s.usize(0, 2).to_string())),
                _ => gen_inner(s, values, funcs, depth - 1),
            };
            let b = if s.chance(1, 5) { Ex::Neg(Box::new(b)) } else { b };
            bin('^', a, b)
        }
        5 => Ex::Neg(Box::new(gen_inner(s, values, funcs, depth - 1))),
        _ => {
            let (f, k) = *s.pick(funcs);
            let args = (0..k)
                .map(|i| if f == "if" && i == 1 { gen_choice(s) } else { gen_inner(s, values, funcs, (depth - 1).min(if k > 2 { 1 } else { 9 })) })
                .collect();
            Ex::Call(f.clone(), args)
        }
    }
}

/// A power of a base near one (or minus one) with a huge exponent
pub fn gen_huge_power(s: &mut Src) -> Ex {
    let digits = s.usize(6, 11);
    let base = match s.below(4) {
        0 => Ex::Neg(Box::new(Ex::Num("1".into()))),
        1 => Ex::Num(format!("0.{}", "9".repeat(digits))),
        _ => Ex::Num(format!("1.{}{}", "0".repeat(digits - 1), s.usize(1, 9))),
    };
    let e = s.bits() % 10u64.pow(digits as u32) + 1;
    let e = Ex::Num(if s.chance(1, 2) { e.to_string() } else { format!("{}e{}", s.usize(1, 9), digits - 1) });
    bin('^', base, if s.chance(1, 4) { Ex::Neg(Box::new(e)) } else { e })
}

/// `e` inside many parentheses, signs and functions
pub fn bury(s: &mut Src, mut e: Ex, absolute: bool) -> Ex {
    for _ in 0..s.usize(5, 60) {
        e = match s.below(if absolute { 6 } else { 4 }) {
            0 => Ex::Neg(Box::new(e)),
            1 => bin('-', Ex::Num(s.usize(0, 9).to_string()), e),
            2 => bin('*', Ex::Num("1".into()), bin('+', e, Ex::Num(s.usize(0, 9).to_string()))),
            3 => bin('-', Ex::Num(s.usize(0, 9).to_string()), bin('-', e, Ex::Num("1".into()))),
            _ => Ex::Call("abs".into(), vec![e]),
        };
    }
    e
}

/// The number of a comparison, as it may be written or computed
pub fn gen_choice(s: &mut Src) -> Ex {
    let k = s.usize(1, 6);
    match if s.chance(1, 4) { s.below(7) } else { 7 } {
        0 => Ex::Num(format!("{k}.0")),
        1 => bin('+', Ex::Num((k - 1).to_string()), Ex::Num("1".into())),
        2 => bin('-', Ex::Num("9".into()), Ex::Num((9 - k).to_string())),
        // near the number, to within rounding
        3 => bin('*', Ex::Num(format!("{}.{}", k / 10, k % 10)), Ex::Num("10".into())),
        4 => bin('/', Ex::Num(format!("{}.{}", k * 7 / 10, k * 7 % 10)), Ex::Num("0.7".into())),
        5 => bin('-', Ex::Num(format!("{k}.3")), Ex::Num("0.3".into())),
        6 => bin('-', Ex::Num("0".into()), Ex::Neg(Box::new(Ex::Num(k.to_string())))),
        _ => Ex::Num(k.to_string()),
    }
}

pub fn size(e: &Ex) -> usize {
    1 + match e {
        Ex::Num(_) | Ex::Name(_) => 0,
        Ex::Neg(a) => size(a),
        Ex::Bin(_, a, b) => size(a) + size(b),
        Ex::Call(_, v) => v.iter().map(size).sum(),
    }
}
pub fn names<'a>(e: &'a Ex, out: &mut Vec<&'a str>) {
    match e {
        Ex::Num(_) => {}
        Ex::Name(n) => out.push(n),
        Ex::Neg(a) => names(a, out),
        Ex::Bin(_, a, b) => {
            names(a, out);
            names(b, out)
        }
        Ex::Call(_, v) => v.iter().for_each(|a| names(a, out)),
    }
}

// ------------------------------------------------------------------ rendering

fn level(e: &Ex) -> u8 {
    match e {
        Ex::Bin('+' | '-', ..) => 0,
        Ex::Bin('*' | '/', ..) => 1,
        Ex::Bin(..) | Ex::Neg(_) => 2,
        _ => 3,
    }
}

fn tokens_into(e: &Ex, need: u8, extra: &mut dyn FnMut() -> bool, out: &mut Vec<String>) {
    let wrap = level(e) < need;
    let more = extra();
    let k = wrap as usize + more as usize;
    for _ in 0..k {
        out.push("(".into());
    }
    match e {
        Ex::Num(t) | Ex::Name(t) => out.push(t.clone()),
        Ex::Neg(a) => {
            out.push("-".into());
            tokens_into(a, 2, extra, out);
        }
        Ex::Bin(op, a, b) => {
            let (l, r) = match op {
                '+' | '-' => (0, 1),
                '*' | '/' => (1, 2),
                _ => (3, 2),
            };
            tokens_into(a, l, extra, out);
            out.push(op.to_string());
            tokens_into(b, r, extra, out);
        }
        Ex::Call(f, v) => {
            out.push(f.clone());
            out.push("(".into());
            for (i, a) in v.iter().enumerate() {
                if i > 0 {
                    out.push(",".into());
                }
                tokens_into(a, 0, extra, out);
            }
            out.push(")".into());
        }
    }
    for _ in 0..k {
        out.push(")".into());
    }
}

/// Tokens with as few parentheses as the conventional reading needs, plus some redundant ones
pub fn tokens(s: &mut Src, e: &Ex) -> Vec<String> {
    let mut out = vec![];
    let redundant = s.chance(1, 3);
    tokens_into(e, 0, &mut || redundant && s.chance(1, 6), &mut out);
    out
}
/// Without redundant parentheses or spaces
pub fn compact(e: &Ex) -> String {
    let mut out = vec![];
    tokens_into(e, 0, &mut || false, &mut out);
    out.concat()
}

pub fn spaced(s: &mut Src, toks: &[String], blanks: &[&str]) -> String {
    let style = s.below(3);
    let mut t = String::new();
    for (i, k) in toks.iter().enumerate() {
        if i > 0 {
            match style {
                0 => t.push(' '),
                1 => {}
                _ => {
                    for _ in 0..s.weighted(&[3, 2, 1]) {
                        t.push_str(s.pick(blanks));
                    }
                }
            }
        } else if style == 2 && s.chance(1, 6) {
            t.push_str(s.pick(blanks));
        }
        t.push_str(k);
    }
    if style == 2 && s.chance(1, 6) {
        t.push_str(s.pick(blanks));
    }
    t
}

pub const BLANKS: &[&str] = &[" ", "  ", "\t", "\n", " \t "];
pub const LINE_BLANKS: &[&str] = &[" ", "  ", " "];

pub fn render(s: &mut Src, e: &Ex, blanks: &[&str]) -> String {
    let t = tokens(s, e);
    spaced(s, &t, blanks)
}

// ------------------------------------------------------------------ independent parser

#[derive(Debug, PartialEq)]
pub enum Parsed {
    Good(Ex),
    Bad(&'static str),
    /// Text whose reading nothing specifies
    Unspecified,
}

pub fn is_literal(w: &str) -> bool {
    let b = w.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    let whole = digits(&mut i);
    let mut frac = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        frac = digits(&mut i);
    }
    if whole + frac == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

pub fn lex(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = String::new();
    for c in text.chars() {
        if c.is_whitespace() || "()^*/+-,".contains(c) {
            if !word.is_empty() {
                out.push(std::mem::take(&mut word));
            }
            if !c.is_whitespace() {
                out.push(c.to_string());
            }
        } else {
            word.push(c);
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}

struct P<'a> {
    t: Vec<String>,
    i: usize,
    env: &'a Env,
    depth: usize,
}
type PR = Result<Ex, &'static str>;

impl P<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn sum(&mut self) -> PR {
        let mut a = self.product()?;
        while let "+" | "-" = self.peek() {
            let op = self.peek().chars().next().unwrap();
            self.i += 1;
            a = bin(op, a, self.product()?);
        }
        Ok(a)
    }
    fn product(&mut self) -> PR {
        let mut a = self.factor()?;
        while let "*" | "/" = self.peek() {
            let op = self.peek().chars().next().unwrap();
            self.i += 1;
            a = bin(op, a, self.factor()?);
        }
        Ok(a)
    }
    fn factor(&mut self) -> PR {
        self.depth += 1;
        if self.depth > 20_000 {
            return Err("too deep for the parser of the harness");
        }
        let r = if self.peek() == "-" {
            self.i += 1;
            self.factor().map(|a| Ex::Neg(Box::new(a)))
        } else {
            self.power()
        };
        self.depth -= 1;
        r
    }
    fn power(&mut self) -> PR {
        let a = self.primary()?;
        if self.peek() == "^" {
            self.i += 1;
            return Ok(bin('^', a, self.factor()?));
        }
        Ok(a)
    }
    fn primary(&mut self) -> PR {
        let w = self.peek().to_string();
        match w.as_str() {
            "" => return Err("operand missing at the end"),
            "(" => {
                self.i += 1;
                let a = self.sum()?;
                if self.peek() != ")" {
                    return Err("closing parenthesis missing");
                }
                self.i += 1;
                return Ok(a);
            }
            ")" | "," | "+" | "*" | "/" | "^" | "-" => return Err("operand missing"),
            _ => {}
        }
        self.i += 1;
        match self.env.get(&w) {
            Some(Meaning::Value(_)) => Ok(Ex::Name(w)),
            Some(m) => {
                let k = arity(m).unwrap();
                if self.peek() != "(" {
                    return Err("function without arguments");
                }
                self.i += 1;
                let mut args = vec![];
                if self.peek() == ")" {
                    self.i += 1;
                } else {
                    loop {
                        args.push(self.sum()?);
                        match self.peek() {
                            "," => self.i += 1,
                            ")" => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err("argument list not closed"),
                        }
                    }
                }
                if args.len() != k {
                    return Err("wrong number of arguments");
                }
                Ok(Ex::Call(w, args))
            }
            None if is_literal(&w) => Ok(Ex::Num(w)),
            None => Err("unknown name or character"),
        }
    }
}

pub fn parse(text: &str, env: &Env) -> Parsed {
    let t = lex(text);
    for (i, w) in t.iter().enumerate() {
        let next = t.get(i + 1).map(|s| s.as_str()).unwrap_or("");
        // whether a function may go without parentheses is not specified
        if env.get(w).is_some_and(|m| arity(m).is_some()) && next != "(" {
            return Parsed::Unspecified;
        }
        // nor are signed exponents
        if (w.ends_with('e') || w.ends_with('E')) && is_literal(&w[..w.len() - 1]) && (next == "+" || next == "-") {
            return Parsed::Unspecified;
        }
        if w.chars().any(|c| !c.is_ascii()) && w.chars().any(|c| c.is_ascii_alphabetic()) {
            return Parsed::Unspecified;
        }
    }
    if text.chars().any(|c| c.is_whitespace() && !c.is_ascii()) || text.contains(['\u{b}', '\u{c}']) {
        return Parsed::Unspecified;
    }
    let mut p = P { t, i: 0, env, depth: 0 };
    match p.sum() {
        Err("too deep for the parser of the harness") => Parsed::Unspecified,
        Err(e) => Parsed::Bad(e),
        Ok(_) if p.i < p.t.len() => Parsed::Bad("something follows the expression"),
        Ok(e) => Parsed::Good(e),
    }
}

// ------------------------------------------------------------------ reference evaluation

/// A value and a bound on how far correct floating-point evaluations may be from it
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub v: f64,
    pub err: f64,
}
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Is(Val),
    /// divides by exactly zero
    DivZero,
    /// has no value, as the root of a negative number
    Undefined,
    /// outside what the property speaks about, or too sensitive to rounding
    Unclear,
}

const EPS: f64 = 2.3e-16;
const WHOLE: f64 = 9.0e15;

fn whole(x: f64) -> bool {
    x.fract() == 0.0 && x.abs() < WHOLE
}
fn done(v: f64, err: f64, exact: bool) -> Ev {
    if !v.is_finite() || !err.is_finite() || v.abs() > 1e280 || (v != 0.0 && v.abs() < 1e-280) {
        return Ev::Unclear;
    }
    let err = if exact { err } else { err + 4.0 * EPS * v.abs() };
    if err > 1e-6 * v.abs().max(1e-3) {
        return Ev::Unclear;
    }
    Ev::Is(Val { v, err })
}

macro_rules! val {
    ($e:expr) => {
        match $e {
            Ev::Is(v) => v,
            other => return other,
        }
    };
}

pub fn eval(e: &Ex, env: &Env) -> Ev {
    match e {
        Ex::Num(t) => match t.parse::<f64>() {
            Ok(v) => done(v, 0.0, true),
            Err(_) => Ev::Unclear,
        },
        Ex::Name(n) => match env.get(n) {
            Some(Meaning::Value(v)) => done(*v, 0.0, true),
            _ => Ev::Unclear,
        },
        Ex::Neg(a) => {
            let a = val!(eval(a, env));
            Ev::Is(Val { v: -a.v, err: a.err })
        }
        Ex::Bin(op, a, b) => {
            let (a, b) = match (eval(a, env), eval(b, env)) {
                (Ev::Is(a), Ev::Is(b)) => (a, b),
                (Ev::DivZero, Ev::Is(_)) | (Ev::Is(_), Ev::DivZero) | (Ev::DivZero, Ev::DivZero) => return Ev::DivZero,
                (Ev::Undefined, Ev::Is(b)) if *op == '/' && b.v.abs() <= 4.0 * b.err => return Ev::Unclear,
                (Ev::Undefined, Ev::Is(_)) | (Ev::Is(_), Ev::Undefined) | (Ev::Undefined, Ev::Undefined) if *op != '^' => return Ev::Undefined,
                _ => return Ev::Unclear,
            };
            let ints = whole(a.v) && whole(b.v);
            match op {
                '+' => done(a.v + b.v, a.err + b.err, (ints && whole(a.v + b.v)) || a.v == 0.0 || b.v == 0.0),
                '-' => done(a.v - b.v, a.err + b.err, (ints && whole(a.v - b.v)) || a.v == 0.0 || b.v == 0.0),
                '*' => {
                    if (a.v == 0.0 && a.err == 0.0) || (b.v == 0.0 && b.err == 0.0) {
                        return done(0.0, 0.0, true);
                    }
                    done(a.v * b.v, a.v.abs() * b.err + b.v.abs() * a.err + a.err * b.err, ints && whole(a.v * b.v))
                }
                '/' => {
                    if b.v == 0.0 && b.err == 0.0 {
                        return Ev::DivZero;
                    }
                    if b.v.abs() <= 4.0 * b.err {
                        return Ev::Unclear;
                    }
                    let v = a.v / b.v;
                    done(v, (a.err + v.abs() * b.err) / (b.v.abs() - b.err), ints && a.v % b.v == 0.0)
                }
                _ => power(a, b),
            }
        }
        Ex::Call(f, args) => {
            let mut v = vec![];
            let mut div = false;
            let mut unclear = false;
            let mut undefined = false;
            for a in args {
                match eval(a, env) {
                    Ev::Is(x) => v.push(x),
                    // an infinite value may be compared
                    Ev::Unclear if f == "if" && infinite(a, env).is_some() => v.push(Val { v: infinite(a, env).unwrap(), err: 0.0 }),
                    Ev::DivZero => {
                        div = true;
                        v.push(Val { v: f64::NAN, err: 0.0 })
                    }
                    Ev::Undefined => {
                        undefined = true;
                        v.push(Val { v: f64::NAN, err: 0.0 })
                    }
                    Ev::Unclear => {
                        // somewhere in it there may be a division by zero
                        div |= divides(a);
                        unclear = true;
                        v.push(Val { v: f64::NAN, err: 0.0 })
                    }
                }
            }
            let m = env.get(f).cloned().unwrap_or(Meaning::Value(0.0));
            if div {
                // dividing by zero in the branch that is not taken: not specified
                return if unclear || m == Meaning::Builtin("if", 5) { Ev::Unclear } else { Ev::DivZero };
            }
            if undefined && !unclear && m != Meaning::Builtin("if", 5) {
                return Ev::Undefined;
            }
            match m {
                Meaning::Custom(i) => {
                    if unclear {
                        return Ev::Unclear;
                    }
                    let (_, _, co, k) = CUSTOM[i];
                    let mut r = k;
                    let mut err = 0.0;
                    let mut big = k.abs();
                    let mut exact = true;
                    for (c, x) in co.iter().zip(&v) {
                        r += c * x.v;
                        big += (c * x.v).abs();
                        err += c.abs() * x.err;
                        exact &= whole(x.v) && x.err == 0.0;
                    }
                    if exact && big < WHOLE {
                        done(r, 0.0, true)
                    } else {
                        done(r, err + 8.0 * EPS * big, false)
                    }
                }
                Meaning::Builtin("if", _) => {
                    // only the comparison and the branch it picks have to be clear
                    let (a, op, b) = (v[0], v[1], v[2]);
                    if a.v.is_nan() || b.v.is_nan() || op.v.is_nan() || op.err > 1e-9 || (op.v - op.v.round()).abs() > 1e-9 || !(1.0..=6.0).contains(&op.v.round()) {
                        return Ev::Unclear;
                    }
                    let e = a.err + b.err;
                    let d = if a.v == b.v { 0.0 } else { a.v - b.v };
                    if e > 0.0 && d.abs() <= 4.0 * e {
                        return Ev::Unclear;
                    }
                    let yes = match op.v.round() as i32 {
                        1 => d == 0.0,
                        2 => d <= 0.0,
                        3 => d >= 0.0,
                        4 => d < 0.0,
                        5 => d > 0.0,
                        _ => d != 0.0,
                    };
                    let r = if yes { v[3] } else { v[4] };
                    if !r.v.is_finite() { Ev::Unclear } else { Ev::Is(r) }
                }
                Meaning::Builtin(f, _) => {
                    if unclear {
                        return Ev::Unclear;
                    }
                    builtin(f, &v)
                }
                Meaning::Value(_) => Ev::Unclear,
            }
        }
    }
}

fn divides(e: &Ex) -> bool {
    match e {
        Ex::Num(_) | Ex::Name(_) => false,
        Ex::Neg(a) => divides(a),
        Ex::Bin(op, a, b) => *op == '/' || divides(a) || divides(b),
        Ex::Call(_, v) => v.iter().any(divides),
    }
}

/// The infinite value of a name, or of a name with a minus in front
fn infinite(e: &Ex, env: &Env) -> Option<f64> {
    match e {
        Ex::Name(n) => match env.get(n) {
            Some(Meaning::Value(v)) if v.is_infinite() => Some(*v),
            _ => None,
        },
        Ex::Neg(a) => infinite(a, env).map(|v| -v),
        _ => None,
    }
}

/// Puts numbers of extreme size in the place of some literals
pub fn stretch(s: &mut Src, e: &mut Ex) {
    match e {
        Ex::Num(t) => {
            if s.chance(1, 2) {
                *t = match s.below(4) {
                    0 => format!("{}e{}", s.usize(1, 9), s.usize(5, 120)),
                    1 => format!("{}.{}E{}", s.usize(1, 9), s.usize(0, 9), s.usize(5, 40)),
                    2 => format!("0.{}{}", "0".repeat(s.usize(3, 60)), s.usize(1, 99)),
                    _ => format!("{}{}", s.usize(1, 9), "0123456789".repeat(s.usize(1, 3))),
                }
            }
        }
        Ex::Name(_) => {}
        Ex::Neg(a) => stretch(s, a),
        Ex::Bin('^', a, _) => stretch(s, a),
        Ex::Bin(_, a, b) => {
            stretch(s, a);
            stretch(s, b);
        }
        Ex::Call(f, v) => {
            let cond = f == "if";
            for (i, a) in v.iter_mut().enumerate() {
                if !(cond && i == 1) {
                    stretch(s, a);
                }
            }
        }
    }
}

fn power(a: Val, b: Val) -> Ev {
    if a.v == 0.0 {
        if a.err == 0.0 && b.v - b.err > 0.0 {
            return done(0.0, 0.0, true);
        }
        return Ev::Unclear; // 0^0, 0^negative
    }
    if a.v.abs() <= 4.0 * a.err {
        return Ev::Unclear;
    }
    if a.v < 0.0 && b.v.abs() < 1e6 && (b.v - b.v.round()).abs() > 4.0 * b.err + 1e-9 {
        return Ev::Undefined;
    }
    if a.v < 0.0 && (b.err != 0.0 || !whole(b.v) || b.v.abs() > 9e15) {
        return Ev::Unclear;
    }
    let v = a.v.powf(b.v);
    let rel = b.v.abs() * a.err / (a.v.abs() - a.err) + (a.v.abs().ln().abs() + a.err) * b.err;
    if rel > 1e-7 {
        return Ev::Unclear;
    }
    let exact = whole(a.v) && a.err == 0.0 && whole(b.v) && b.v >= 0.0 && b.err == 0.0 && whole(v);
    done(v, 1.5 * rel * v.abs() + if exact { 0.0 } else { (4.0 + b.v.abs()) * EPS * v.abs() }, exact)
}

fn builtin(f: &str, v: &[Val]) -> Ev {
    type U = fn(f64) -> f64;
    let a = v[0];
    if f == "abs" {
        return Ev::Is(Val { v: a.v.abs(), err: a.err });
    }
    if f == "log" {
        let (b, x) = (v[0], v[1]);
        if x.v < 0.0 && x.v + 4.0 * x.err < 0.0 && b.v - b.err > 0.0 {
            return Ev::Undefined;
        }
        if b.v - b.err <= 0.0 || x.v - x.err <= 0.0 || (b.v - 1.0).abs() <= 4.0 * b.err + 1e-12 {
            return Ev::Unclear;
        }
        let (lx, lb) = (x.v.ln(), b.v.ln());
        let r = lx / lb;
        let err = x.err / (x.v - x.err) / lb.abs() + r.abs() * b.err / (b.v - b.err) / lb.abs();
        return done(r, 1.5 * err + 4.0 * EPS * (r.abs() + 1e-3 / lb.abs()), false);
    }
    let (lo, hi) = (a.v - a.err, a.v + a.err);
    let g: U = match f {
        "sin" | "cos" | "tan" => {
            if a.v.abs() > 1e6 {
                return Ev::Unclear;
            }
            match f {
                "sin" => f64::sin,
                "cos" => f64::cos,
                _ => f64::tan,
            }
        }
        "arcsin" | "arccos" => {
            if lo - 4.0 * a.err > 1.0 || hi + 4.0 * a.err < -1.0 {
                return Ev::Undefined;
            }
            if lo < -1.0 || hi > 1.0 {
                return Ev::Unclear;
            }
            if f == "arcsin" { f64::asin } else { f64::acos }
        }
        "arctan" => f64::atan,
        "sinh" => f64::sinh,
        "cosh" => f64::cosh,
        "tanh" => f64::tanh,
        "ln" | "log10" => {
            if hi + 4.0 * a.err < 0.0 {
                return Ev::Undefined;
            }
            if lo <= 0.0 {
                return Ev::Unclear;
            }
            if f == "ln" { f64::ln } else { f64::log10 }
        }
        _ => return Ev::Unclear,
    };
    if matches!(f, "sinh" | "cosh") && a.v.abs() > 100.0 {
        return Ev::Unclear;
    }
    let r = g(a.v);
    let spread = if a.err == 0.0 { 0.0 } else { 2.0 * (g(lo) - r).abs().max((g(hi) - r).abs()) + 4.0 * EPS * r.abs() };
    if f == "tan" && (r.abs() > 1e6 || spread > 1e-6 * r.abs().max(1.0)) {
        return Ev::Unclear;
    }
    let zero = a.v == 0.0 && a.err == 0.0 && r == 0.0;
    done(r, spread + if zero { 0.0 } else { 4.0 * EPS * r.abs() }, zero)
}
