//! C10 and C11: the root finders.

use crate::engine::*;
use crate::util::*;
use crate::{ensure, fail};
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::{Error, ErrorKind};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Fun {
    /// a*(x - r)
    Affine(F, F),
    /// x^2 - c
    Square(F),
    /// a x^3 + b x - c
    Cubic(F, F, F),
    /// e^x - c
    Exp(F),
    Sin,
    Poly(Vec<F>),
    /// x^2 + k, k > 0
    NoRoot(F),
    Const(F),
    /// |x - a|
    Abs(F),
    /// 1/(x - a)
    Pole(F),
    /// sqrt(x - a)
    Root(F),
    Step(F),
    NotANumber,
    /// ln(x): not a number for negative x
    Ln,
}
fn value(f: &Fun, x: f64) -> f64 {
    match f {
        Fun::Affine(a, r) => a.0 * (x - r.0),
        Fun::Square(c) => x * x - c.0,
        Fun::Cubic(a, b, c) => a.0 * x * x * x + b.0 * x - c.0,
        Fun::Exp(c) => x.exp() - c.0,
        Fun::Sin => x.sin(),
        Fun::Poly(c) => c.iter().rev().fold(0.0, |y, c| y * x + c.0),
        Fun::NoRoot(k) => x * x + k.0,
        Fun::Const(c) => c.0,
        Fun::Abs(a) => (x - a.0).abs(),
        Fun::Pole(a) => 1.0 / (x - a.0),
        Fun::Root(a) => (x - a.0).sqrt(),
        Fun::Step(a) => if x > a.0 { 1.0 } else { -1.0 },
        Fun::NotANumber => f64::NAN,
        Fun::Ln => x.ln(),
    }
}
fn slope(f: &Fun, x: f64) -> f64 {
    let h = 1e-6 * x.abs().max(1.0);
    match f {
        Fun::Affine(a, _) => a.0,
        Fun::Square(_) | Fun::NoRoot(_) => 2.0 * x,
        Fun::Cubic(a, b, _) => 3.0 * a.0 * x * x + b.0,
        Fun::Exp(_) => x.exp(),
        Fun::Sin => x.cos(),
        _ => (value(f, x + h) - value(f, x - h)) / (2.0 * h),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C10Case {
    f: Fun,
    guess: F,
    margin: F,
    limit: usize,
    /// fails on this call, counting from 1
    fail_at: Option<usize>,
    /// fails for every argument above
    fail_above: Option<F>,
    /// the function and guess are of a kind that has to converge
    must: bool,
}
pub struct C10;

const MARGINS: [f64; 7] = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 0.1];

/// Now and then too small for the solver to have to get there.
const TINY: f64 = 1e-7;
fn gen_margin(s: &mut Src) -> f64 {
    if s.chance(1, 4) { *s.pick(&[1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 3e-9, 1e-15]) } else { *s.pick(&MARGINS) }
}

/// Counts the points the solver moves to: evaluations closer to the first one of a group than a
/// difference quotient needs belong to one iteration. Each iteration begins at most one group.
#[derive(Default)]
struct Groups {
    first: RefCell<Vec<f64>>,
    n: Cell<usize>,
}
impl Groups {
    fn see(&self, x: &[f64]) {
        let mut first = self.first.borrow_mut();
        let near = self.n.get() > 0 && x.iter().zip(first.iter()).all(|(a, b)| (a - b).abs() <= 0.0021 + 4e-16 * a.abs().max(b.abs()) || a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
        if !near {
            self.n.set(self.n.get() + 1);
            first.clear();
            first.extend_from_slice(x);
        }
    }
}

impl Prop for C10 {
    type Case = C10Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "A function (affine, polynomial, exponential, trigonometric, without a root, constant, with a pole, a jump, undefined values or failures at a chosen call or region), a guess, a margin and an iteration limit. Success: the function and the estimated distance to the root at the returned value are within the margin. Affine functions from any guess, and smooth functions near a simple root, have to succeed within 12 to 50 iterations. Limits of 0 and of 200,000 on functions without a root, and margins that are not positive, have to fail; the number of evaluations stays below ten per iteration, and the points the solver moves to are no more than the limit. Margins go down to 1e-15, those below 1e-7 without having to be reached. Non-trivial: the solver needs more than one iteration, or has to fail.";
    const QUICK: u64 = 750_000;

    fn fixed() -> Vec<C10Case> {
        let c = |f, guess: f64, margin: f64, limit| C10Case { f, guess: F(guess), margin: F(margin), limit, fail_at: None, fail_above: None, must: false };
        vec![
            c(Fun::NoRoot(F(1.0)), 3.0, 1e-3, 200_000),
            c(Fun::NoRoot(F(1.0)), 3.0, 1e-3, 1_000_000),
            c(Fun::Sin, 1.5707963, 1e-3, 200_000),
            c(Fun::Const(F(1.0)), 1.0, 1e-3, 1_000_000),
            c(Fun::Const(F(0.0)), 1.0, 1e-3, 10),
            c(Fun::NotANumber, 1.0, 1e-3, 1000),
            c(Fun::Affine(F(-3.0), F(1e3)), 1e6, 1e-3, 12),
            c(Fun::Affine(F(1.0), F(0.0)), 0.0, 1e-3, 0),
            c(Fun::Affine(F(1.0), F(0.0)), 0.0, 0.0, 10),
            c(Fun::Affine(F(1.0), F(0.0)), 0.0, -1e-3, 10),
            c(Fun::Affine(F(1.0), F(0.0)), 0.0, f64::NEG_INFINITY, 10),
        ]
    }

    fn generate(s: &mut Src) -> C10Case {
        let mut must = false;
        let margin = gen_margin(s);
        let mut limit = s.usize(1, 60);
        let sign = |s: &mut Src| if s.chance(1, 2) { -1.0 } else { 1.0 };
        let (f, guess) = match s.weighted(&[5, 3, 3, 3, 2, 3, 2, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {
                let a = sign(s) * s.frac(0.05, 50.0);
                let r = s.decimal(500, 2);
                must = true;
                limit = s.usize(12, 60);
                (Fun::Affine(F(a), F(r)), if s.chance(1, 3) { s.int(-100_000, 100_000) as f64 } else { s.decimal(100, 1) })
            }
            1 => {
                let c = s.frac(0.5, 100.0);
                must = true;
                limit = s.usize(15, 60);
                (Fun::Square(F(c)), sign(s) * c.sqrt() * s.frac(0.6, 1.6))
            }
            2 => {
                let (a, b) = (s.frac(0.1, 3.0), s.frac(0.5, 5.0));
                let r = s.decimal(4, 2);
                must = true;
                limit = s.usize(40, 60);
                (Fun::Cubic(F(a), F(b), F(a * r * r * r + b * r)), r + s.frac(-0.5, 0.5))
            }
            3 => {
                let r = s.frac(-2.0, 4.0);
                must = true;
                limit = s.usize(20, 60);
                (Fun::Exp(F(r.exp())), r + s.frac(-1.0, 1.0))
            }
            4 => {
                let k = s.int(-5, 5) as f64;
                must = true;
                limit = s.usize(15, 60);
                (Fun::Sin, k * std::f64::consts::PI + s.frac(-0.8, 0.8))
            }
            5 => {
                let n = s.usize(1, 5);
                ((Fun::Poly((0..=n).map(|_| F(s.decimal(5, 1))).collect())), s.decimal(10, 1))
            }
            6 => (Fun::NoRoot(F(s.frac(0.2, 5.0))), s.decimal(10, 1)),
            7 => (Fun::Const(F(s.decimal(3, 1))), s.decimal(10, 1)),
            8 => (Fun::Abs(F(s.decimal(3, 1))), s.decimal(10, 1)),
            9 => (Fun::Pole(F(s.decimal(3, 1))), s.decimal(10, 1)),
            10 => (Fun::Root(F(s.decimal(3, 1))), s.decimal(10, 1)),
            11 => (Fun::Step(F(s.decimal(3, 1))), s.decimal(10, 1)),
            12 => (Fun::NotANumber, s.decimal(10, 1)),
            _ => (Fun::Ln, s.frac(-1.0, 5.0)),
        };
        let fail_at = s.chance(1, 8).then(|| s.usize(1, 12));
        let fail_above = s.chance(1, 10).then(|| F(guess + s.decimal(5, 1)));
        if s.chance(1, 12) {
            limit = s.usize(0, 2);
            must = false;
        }
        let mut c = C10Case { f, guess: F(guess), margin: F(margin), limit, fail_at, fail_above, must };
        if s.chance(1, 20) {
            c.margin = F(*s.pick(&[0.0, -1.0, -1e-9, f64::NEG_INFINITY]));
        }
        c
    }

    fn check(c: &C10Case) -> Checked {
        let calls = Cell::new(0usize);
        let failed = Cell::new(false);
        let groups = Groups::default();
        let f = |x: f64| -> Result<f64, Error> {
            groups.see(&[x]);
            calls.set(calls.get() + 1);
            if c.fail_at == Some(calls.get()) || c.fail_above.is_some_and(|a| x > a.0) {
                failed.set(true);
                return Err(Error::new(ErrorKind::Other, "planned"));
            }
            Ok(value(&c.f, x))
        };
        let m = c.margin.0;
        let r = newton_raphson(f, c.guess.0, m, c.limit);
        let n = calls.get();
        ensure!(n <= 10 * c.limit + 10, "{n} evaluations with a limit of {} iterations", c.limit);
        ensure!(groups.n.get() <= c.limit, "the solver takes {} steps with a limit of {} iterations", groups.n.get(), c.limit);
        let shown = format!("{:?} from {:?} with margin {m:e} and limit {}", c.f, c.guess.0, c.limit);
        match r {
            Ok(x) => {
                ensure!(!failed.get(), "{shown}: the function failed and {x:?} is returned");
                ensure!(m > 0.0, "{shown}: succeeds with {x:?}");
                ensure!(c.limit > 0, "{shown}: succeeds with {x:?}");
                let y = value(&c.f, x);
                ensure!(y.abs() <= m * (1.0 + 1e-9), "{shown}: the function at the returned {x:?} is {y:?}");
                let forward = (value(&c.f, x + 0.001) - y) / 0.001;
                let d = (y / forward).abs().min((y / slope(&c.f, x)).abs());
                ensure!(y == 0.0 || d <= m * 1.05 + 1e-12, "{shown}: the returned {x:?} is an estimated {d:e} away from the root");
                ok(n > 2, vec!["root"])
            }
            Err(e) => {
                ensure!(!c.must || m < TINY || failed.get(), "{shown}: no root is found ({e})");
                ok(true, vec![if failed.get() { "failing function" } else { "no root" }])
            }
        }
    }
}

// ------------------------------------------------------------------ C11

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C11Case {
    /// one row per function; one column per variable
    a: Vec<Vec<F>>,
    b: Vec<F>,
    /// nonlinear parts: function, kind, variable, other variable, weight
    extra: Vec<(usize, u8, usize, usize, F)>,
    names: Vec<String>,
    guess: Vec<F>,
    int_keys: bool,
    margin: F,
    limit: usize,
    fail_at: Option<usize>,
    /// the planted solution is near the guess
    near: bool,
}
pub struct C11;

fn row(c: &C11Case, i: usize, x: &[f64]) -> f64 {
    let mut y = -c.b[i].0;
    for (j, a) in c.a[i].iter().enumerate() {
        y += a.0 * x.get(j).copied().unwrap_or(0.0);
    }
    for &(f, kind, j, k, w) in &c.extra {
        if f == i {
            y += w.0 * match kind {
                0 => x[j].sin(),
                1 => x[j] * x[k],
                2 => x[j] * x[j],
                3 => (0.1 * x[j]).exp(),
                // not defined everywhere
                4 => (x[j] - x[k] - 2.0).sqrt(),
                5 => (x[j] + 1.0).ln(),
                _ => 1.0 / x[j],
            };
        }
    }
    y
}

fn c11<K: Clone + Eq + std::hash::Hash + std::fmt::Debug>(c: &C11Case, keys: Vec<K>) -> Checked {
    let n = c.a.len();
    let nv = keys.len();
    let calls = Cell::new(0usize);
    let failed = Cell::new(false);
    let groups = Groups::default();
    let at = |m: &HashMap<K, f64>| keys.iter().map(|k| m[k]).collect::<Vec<f64>>();
    let (calls_r, failed_r, at_r, groups_r) = (&calls, &failed, &at, &groups);
    let fns: Vec<_> = (0..n)
        .map(|i| {
            move |m: &HashMap<K, f64>| -> Result<f64, Error> {
                calls_r.set(calls_r.get() + 1);
                if c.fail_at == Some(calls_r.get()) {
                    failed_r.set(true);
                    return Err(Error::new(ErrorKind::Other, "planned"));
                }
                let x = at_r(m);
                groups_r.see(&x);
                Ok(row(c, i, &x))
            }
        })
        .collect();
    let mut guess: HashMap<K, f64> = keys.iter().cloned().zip(c.guess.iter().map(|v| v.0)).collect();
    let m = c.margin.0;
    let r = multivariate_newton_raphson(fns, &mut guess, m, c.limit).map(|g| g.clone());
    let bound = (c.limit + 1) * (n * (n + 2) * 5 + 10);
    ensure!(calls.get() <= bound, "{} evaluations for {n} functions with a limit of {}", calls.get(), c.limit);
    ensure!(groups.n.get() <= c.limit, "the solver takes {} steps with a limit of {} iterations", groups.n.get(), c.limit);
    // what the case demands
    let dense: Vec<Vec<f64>> = c.a.iter().map(|r| raw(r)).collect();
    let zero_col = n == nv && (0..nv).any(|j| dense.iter().all(|r| r[j] == 0.0) && c.extra.iter().all(|e| e.2 != j && (!matches!(e.1, 1 | 4) || e.3 != j)));
    let zero_row = n == nv && (0..n).any(|i| dense[i].iter().all(|v| *v == 0.0) && c.extra.iter().all(|e| e.0 != i));
    let linear = c.extra.is_empty();
    let good = n == nv && invert_dense(&dense).is_some_and(|i| norm(&i) * norm(&dense) < 1e3);
    match r {
        Ok(g) => {
            ensure!(!failed.get(), "a function failed and the solver succeeds");
            ensure!(n == nv, "{n} functions of {nv} variables are solved");
            ensure!(m > 0.0 && c.limit > 0, "succeeds with margin {m:?} and limit {}", c.limit);
            ensure!(!zero_col && !zero_row, "a singular system is solved");
            ensure!(g.len() == nv && keys.iter().all(|k| g.contains_key(k)), "the result has the variables {:?}, not {keys:?}", g.keys().collect::<Vec<_>>());
            let x = at(&g);
            let f: Vec<f64> = (0..n).map(|i| row(c, i, &x)).collect();
            let e = f.iter().map(|v| v * v).sum::<f64>().sqrt();
            ensure!(e <= m * (1.0 + 1e-6) + 1e-13, "margin {m:e}: the functions at the returned point {x:?} have magnitude {e:e}");
            // the estimated distance to the solution, by a difference quotient to either side
            let h = 1e-3;
            let j: Vec<Vec<Vec<f64>>> = [h, -h]
                .iter()
                .map(|h| {
                    let cols: Vec<Vec<f64>> = (0..n)
                        .map(|k| {
                            let mut y = x.clone();
                            y[k] += h;
                            (0..n).map(|i| (row(c, i, &y) - f[i]) / h).collect()
                        })
                        .collect();
                    (0..n).map(|i| (0..n).map(|k| cols[k][i]).collect()).collect()
                })
                .collect();
            let far = x.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
            let d = j
                .iter()
                .map(|j| {
                    let Some(inv) = invert_dense(j) else { return 0.0 };
                    let cond = norm(&inv) * norm(j);
                    if !(cond < 1e6) {
                        return 0.0;
                    }
                    let d = inv.iter().map(|r| r.iter().zip(&f).map(|(a, b)| a * b).sum::<f64>().powi(2)).sum::<f64>().sqrt();
                    (d - 1e-12 * far * cond - 1e-13 * far * norm(j) * norm(&inv)).max(0.0) / (1.0 + 1e-8 * cond * far)
                })
                .fold(f64::INFINITY, f64::min);
            ensure!(d <= m * 1.01, "margin {m:e}: the returned point {x:?} is an estimated {d:e} away from the solution");
            ensure!(g == guess, "the returned table and the caller's differ");
            ok(n >= 2, vec![if linear { "linear" } else { "nonlinear" }])
        }
        Err(e) => {
            let must = n == nv && n > 0 && good && (linear && c.limit >= 12 || c.near && c.limit >= 25) && m >= TINY && !failed.get();
            ensure!(!must, "{n} functions, margin {m:e}, limit {}: no solution is found ({e})", c.limit);
            ok(n != nv || zero_col || zero_row || failed.get() || m <= 0.0 || c.limit == 0, vec!["refused"])
        }
    }
}

impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "Systems of 1 to 8 functions: dense and sparse linear ones, linear ones with mild sine, product, square and exponential parts planted around a known point, arbitrary ones with squares, products, roots, logarithms and reciprocals that have no value at some points, singular ones (an absent variable or a constant function), a wrong number of functions, failures at a chosen call; string or integer keys; hash orders vary. Success: the estimated distance to the solution (by the Jacobian at the result) is within the margin, the magnitude of all functions at the result is within the margin (1e-15 to 0.1; none below 1e-7 has to be reached), for exactly the given variables. Well-conditioned linear systems from any guess and mildly nonlinear ones from near guesses have to be solved. Non-trivial: at least two functions solved, or a system that has to be refused.";
    const QUICK: u64 = 625_000;

    fn fixed() -> Vec<C11Case> {
        let two = |limit, margin: f64| C11Case { a: vec![fs(&[1.0, 1.0]), fs(&[1.0, -1.0])], b: fs(&[9.0, 4.0]), extra: vec![], names: vec!["x".into(), "y".into()], guess: fs(&[1.0, 1.0]), int_keys: false, margin: F(margin), limit, fail_at: None, near: false };
        // x*y = 1 and x*y = 2 has no solution
        let none = C11Case { a: vec![fs(&[0.0, 0.0]), fs(&[0.0, 0.0])], b: fs(&[1.0, 2.0]), extra: vec![(0, 1, 0, 1, F(1.0)), (1, 1, 0, 1, F(1.0)), (1, 2, 0, 0, F(1e-9))], names: vec!["x".into(), "y".into()], guess: fs(&[1.0, 2.0]), int_keys: false, margin: F(1e-3), limit: 30_000, fail_at: None, near: false };
        vec![two(50, 1e-4), two(0, 1e-4), two(50, 0.0), two(50, -1.0), none]
    }

    fn generate(s: &mut Src) -> C11Case {
        let n = if s.chance(1, 100) { s.usize(9, 16) } else { 1 + s.size(4, 7) };
        let kind = s.weighted(&[5, 4, 2, 1, 1]); // linear, near, wild, singular, wrong count
        let sparse = s.chance(1, 3);
        let coef = |s: &mut Src| if s.chance(1, 2) { s.int(-9, 9) as f64 } else { s.decimal(9, 1) };
        let mut a: Vec<Vec<f64>> = (0..n).map(|_| (0..n).map(|_| if sparse && s.chance(1, 2) { 0.0 } else { coef(s) }).collect()).collect();
        // a permuted dominant diagonal makes most of them well conditioned
        if kind == 1 || s.chance(2, 3) {
            let mut p: Vec<usize> = (0..n).collect();
            s.shuffle(&mut p);
            for (i, &j) in p.iter().enumerate() {
                let t: f64 = a[i].iter().map(|v| v.abs()).sum();
                a[i][j] = (t + 1.0 + s.frac(0.0, 5.0)) * if s.chance(1, 2) { -1.0 } else { 1.0 };
            }
        }
        let x: Vec<f64> = (0..n).map(|_| s.decimal(10, 1)).collect();
        let mut extra = vec![];
        let mut guess: Vec<f64> = (0..n).map(|_| if s.chance(1, 4) { s.int(-5000, 5000) as f64 } else { s.decimal(20, 1) }).collect();
        if kind == 1 {
            for _ in 0..s.usize(1, 4) {
                let k = s.below(4) as u8;
                let w = match k {
                    0 => s.frac(-0.4, 0.4),
                    1 | 2 => s.frac(-0.01, 0.01),
                    _ => s.frac(-0.3, 0.3),
                };
                extra.push((s.usize(0, n - 1), k, s.usize(0, n - 1), s.usize(0, n - 1), F(w)));
            }
            guess = x.iter().map(|v| v + s.frac(-0.5, 0.5)).collect();
        } else if kind == 2 {
            for _ in 0..s.usize(1, 6) {
                let k = s.weighted(&[4, 4, 4, 0, 2, 2, 1]) as u8;
                extra.push((s.usize(0, n - 1), k, s.usize(0, n - 1), s.usize(0, n - 1), F(coef(s))));
            }
        } else if kind == 3 {
            let k = s.usize(0, n - 1);
            if s.chance(1, 2) {
                a.iter_mut().for_each(|r| r[k] = 0.0);
            } else {
                a[k].iter_mut().for_each(|v| *v = 0.0);
            }
        }
        let mut c = C11Case { a: a.iter().map(|r| fs(r)).collect(), b: fs(&vec![0.0; n]), extra, names: vec![], guess: fs(&guess), int_keys: s.chance(1, 4), margin: F(if s.chance(1, 5) { gen_margin(s) } else { *s.pick(&MARGINS[..5]) }), limit: s.usize(25, 60), fail_at: s.chance(1, 12).then(|| s.usize(1, 60)), near: kind == 1 };
        // plant the solution
        for i in 0..n {
            c.b[i] = F(row(&c, i, &x));
        }
        if kind == 3 && s.chance(1, 2) {
            let i = s.usize(0, n - 1);
            c.b[i].0 += 1.0;
        }
        let mut nv = n;
        if kind == 4 {
            if s.chance(1, 2) && n > 1 {
                c.a.pop();
                c.b.pop();
                c.extra.clear();
            } else {
                nv += 1;
                c.guess.push(F(1.0));
                c.a.iter_mut().for_each(|r| r.push(F(1.0)));
            }
        }
        c.names = crate::expr::gen_names(s, nv, &Default::default());
        if s.chance(1, 20) {
            c.limit = s.usize(0, 3);
        }
        if s.chance(1, 25) {
            c.margin = F(*s.pick(&[0.0, -1.0, -1e-9]));
        }
        c
    }

    fn check(c: &C11Case) -> Checked {
        if c.guess.len() != c.names.len() {
            fail!("case")
        }
        if c.int_keys { c11(c, (0..c.names.len() as u32).map(|i| i * 7 + 3).collect()) } else { c11(c, c.names.clone()) }
    }
}
