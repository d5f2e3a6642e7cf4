//! C16 to C18: programs of equations, their declarations and annotations, their conditional blocks.

use super::expressions::gen_value;
use crate::engine::*;
use crate::expr::*;
use crate::linear::*;
use crate::util::*;
use crate::{ensure, fail};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
use nexsys::parsing::compile;
use nexsys::units::{const_data, convert};
use nexsys::{basic_solve, solve_with_preprocessors};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ programs with a planted solution

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Item {
    Eq(Ex, Ex),
    If(Box<Block>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Block {
    pub a: Ex,
    /// index into COMPARE
    pub op: usize,
    pub b: Ex,
    pub yes: Item,
    pub no: Item,
}
pub const COMPARE: &[(&str, fn(f64, f64) -> bool)] =
    &[("==", |a, b| a == b), ("<=", |a, b| a <= b), (">=", |a, b| a >= b), ("<", |a, b| a < b), (">", |a, b| a > b), ("!=", |a, b| a != b)];

/// Guess and bounds declared for a variable
pub type Spec = BTreeMap<String, (Option<F>, Option<(F, F)>)>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Planted {
    pub vars: Vec<String>,
    pub solution: Vec<F>,
    pub items: Vec<Item>,
    pub spec: Spec,
    /// well-conditioned, to be solved from these guesses
    pub must: bool,
    /// has a group of two or more variables
    pub grouped: bool,
}

pub struct Known {
    /// usable in sums
    pub add: Vec<(String, f64)>,
    /// usable as coefficients
    pub mul: Vec<(String, f64)>,
    /// numbers of ordinary size only
    pub plain: bool,
}

const WORDS: &[&str] = &["constant", "guessed", "keepx", "const1", "forx", "on_", "ifx", "endx", "elsex", "end1", "if_1", "x_if", "my_end", "xelse"];

pub fn program_names(s: &mut Src, k: usize, taken: &Env) -> Vec<String> {
    let mut env = taken.clone();
    let mut out: Vec<String> = vec![];
    for _ in 0..k {
        let mut n = match s.weighted(&[6, 2, 2]) {
            0 => gen_names(s, 1, &env).pop().unwrap(),
            1 => s.pick(WORDS).to_string(),
            // a name that begins like another
            _ if out.is_empty() => gen_names(s, 1, &env).pop().unwrap(),
            _ => format!("{}{}", s.pick(&out).clone(), s.pick(&["1", "0", "x", "_", "2a", "e"])),
        };
        let reserved = |n: &str| ["if", "else", "end", "guess", "keep", "const", "for", "on"].contains(&n.to_ascii_lowercase().as_str());
        if env.contains_key(&n) || reserved(&n) {
            n = gen_names(s, 1, &env).pop().unwrap();
        }
        if reserved(&n) {
            n = format!("v{}", out.len());
        }
        env.insert(n.clone(), Meaning::Value(0.0));
        out.push(n);
    }
    out
}

/// Groups of equations, each solvable once those before it are
pub fn gen_planted(s: &mut Src, vars: Vec<String>, known: &Known) -> Planted {
    let n = vars.len();
    let mut x: Vec<f64> = (0..n).map(|_| s.decimal(12, 1)).collect();
    let mut a = vec![vec![0.0; n]; n];
    let near = s.chance(1, 3);
    // linear programs may have large or small solutions
    let scale = if !near && !known.plain && s.chance(1, 8) { *s.pick(&[1e2, 1e4, 1e5, 1e-2, 1e-4]) } else { 1.0 };
    x.iter_mut().for_each(|v| *v = short(*v * scale, 14));
    let mut items = vec![];
    let mut spec: Spec = BTreeMap::new();
    let mut done = 0;
    let mut grouped = false;
    let mut curved = vec![];
    while done < n {
        let g = (1 + s.weighted(&[5, 3, 2, 1])).min(n - done);
        let ring = g >= 2 && s.chance(1, 3);
        grouped |= g >= 2;
        let group: Vec<usize> = (done..done + g).collect();
        let mut perm = group.clone();
        s.shuffle(&mut perm);
        for (k, &i) in group.iter().enumerate() {
            let row = &mut a[i];
            // sums over the group
            if ring {
                let (u, v) = (group[k], group[(k + 1) % g]);
                row[u] = s.decimal(6, 1);
                row[v] = s.decimal(6, 1);
            } else {
                for &j in &group {
                    if k == 0 || s.chance(2, 3) {
                        row[j] = s.decimal(6, 1);
                    }
                }
            }
            for &j in &group {
                if row[j] == 0.0 && (k == 0 || ring && (j == group[k] || j == group[(k + 1) % g])) {
                    row[j] = 1.0;
                }
            }
            // and over what comes before
            let mut extra = vec![];
            let mut rhs = 0.0;
            let curve = !near && scale == 1.0 && g == 1 && s.chance(1, 5);
            if done > 0 && !curve {
                for _ in 0..s.weighted(&[4, 4, 2]) {
                    let j = s.usize(0, done - 1);
                    row[j] = s.decimal(3, 1);
                }
            }
            let pivot = if ring { group[k] } else { perm[k] };
            if near || row[pivot] == 0.0 || s.chance(1, 2) {
                let t: f64 = row.iter().enumerate().filter(|(j, _)| *j != pivot).map(|(_, v)| v.abs()).sum();
                row[pivot] = short(t + 1.0, 1) * if s.chance(1, 2) { -1.0 } else { 1.0 };
            }
            if near && s.chance(1, 2) {
                let (p, q) = (*s.pick(&group), s.usize(0, done + g - 1));
                let (u, v) = (name(&vars[p]), name(&vars[q]));
                match s.below(3) {
                    0 => {
                        extra.push(bin('*', num(0.3), call("sin", vec![u])));
                        rhs += 0.3 * x[p].sin();
                    }
                    1 => {
                        extra.push(bin('*', bin('*', num(0.01), u), v));
                        rhs += 0.01 * x[p] * x[q];
                    }
                    _ => {
                        extra.push(bin('/', bin('^', u, num(2.0)), num(100.0)));
                        rhs += x[p] * x[p] / 100.0;
                    }
                }
            }
            if curve {
                row[i] = row[i].abs();
                let u = name(&vars[i]);
                if s.chance(1, 2) {
                    extra.push(bin('*', num(0.5), bin('^', u, num(3.0))));
                    rhs += 0.5 * x[i] * x[i] * x[i];
                } else {
                    extra.push(bin('*', num(2.0), call("arctan", vec![u])));
                    rhs += 2.0 * x[i].atan();
                }
                curved.push(i);
            }
            if g == 1 && !known.mul.is_empty() && s.chance(1, 2) {
                // a known name as a coefficient
                let (c, v) = s.pick(&known.mul).clone();
                let sign = if row[i] * v < 0.0 { -1.0 } else { 1.0 };
                let t = bin('*', name(&c), name(&vars[i]));
                extra.push(if sign < 0.0 { Ex::Neg(Box::new(t)) } else { t });
                rhs += sign * v * x[i];
                row[i] += sign * v;
                // the plain coefficient stays beside it
                let plain = row[i] - sign * v;
                let coefs: Vec<(f64, &str)> = row.iter().enumerate().filter(|(_, v)| **v != 0.0).map(|(j, v)| (if j == i { plain } else { *v }, vars[j].as_str())).collect();
                let total: f64 = row.iter().zip(&x).map(|(a, x)| a * x).sum();
                rhs += total - sign * v * x[i];
                let (l, r) = equation(s, &coefs, extra, short(rhs, 8), &known.add);
                items.push(Item::Eq(l, r));
                continue;
            }
            rhs += row.iter().zip(&x).map(|(a, x)| a * x).sum::<f64>();
            let coefs: Vec<(f64, &str)> = row.iter().enumerate().filter(|(_, v)| **v != 0.0).map(|(j, v)| (*v, vars[j].as_str())).collect();
            let (l, r) = equation(s, &coefs, extra, short(rhs, 8), &known.add);
            items.push(Item::Eq(l, r));
        }
        done += g;
    }
    for (i, v) in vars.iter().enumerate() {
        let close = near || curved.contains(&i);
        if !close && s.chance(1, 2) {
            continue;
        }
        let g = if near { x[i] + s.frac(-0.4, 0.4) } else if close { x[i] + s.frac(-1.0, 1.0) } else { s.decimal(50, 1) };
        let g = short(g, 2);
        let guess = (close || s.chance(2, 3)).then_some(F(g));
        let from = guess.map_or(1.0, |g| g.0);
        let wide = if close { 8.0 } else { 1.0 };
        let bounds = s.chance(1, 2).then(|| {
            let (lo, hi) = (short(x[i].min(from) - wide * scale.max(1.0) - s.frac(0.0, 30.0), 1), short(x[i].max(from) + wide * scale.max(1.0) + s.frac(0.0, 30.0), 1));
            match s.below(4) {
                0 => (F(lo), F(1e6 * scale.max(1.0))),
                1 => (F(-1e6 * scale.max(1.0)), F(hi)),
                _ => (F(lo), F(hi)),
            }
        });
        if guess.is_some() || bounds.is_some() {
            spec.insert(v.clone(), (guess, bounds));
        }
    }
    let must = invert_dense(&a).is_some_and(|i| norm(&i) * norm(&a) < 3e3);
    Planted { vars, solution: fs(&x), items, spec, must, grouped }
}

fn chosen<'a>(i: &'a Item, env: &Env) -> Option<(&'a Ex, &'a Ex)> {
    match i {
        Item::Eq(l, r) => Some((l, r)),
        Item::If(b) => {
            let (Ev::Is(p), Ev::Is(q)) = (eval(&b.a, env), eval(&b.b, env)) else { return None };
            let e = p.err + q.err;
            if e > 0.0 && (p.v - q.v).abs() <= 4.0 * e {
                return None;
            }
            chosen(if COMPARE[b.op].1(p.v, q.v) { &b.yes } else { &b.no }, env)
        }
    }
}

/// Every equation holds at the solution, within the margin
pub fn holds(items: &[Item], base: &Env, vars: &[String], spec: &Spec, got: &HashMap<String, f64>, margin: f64, what: &dyn std::fmt::Display) -> Result<(), Failure> {
    let mut env = base.clone();
    for v in vars {
        let Some(x) = got.get(v) else { fail!("{what}: no value for {v}: {got:?}") };
        ensure!(x.is_finite(), "{what}: {v} = {x:?}");
        env.insert(v.clone(), Meaning::Value(*x));
        if let Some((_, Some((lo, hi)))) = spec.get(v) {
            ensure!(*x >= lo.0 && *x <= hi.0, "{what}: {v} = {x:?} is outside [{:?}, {:?}]", lo.0, hi.0);
        }
    }
    for i in items {
        if let Some((l, r)) = chosen(i, &env) {
            if let Some((d, err)) = residual(l, r, &env) {
                ensure!(d <= margin * (1.0 + 1e-6) + err + 1e-12, "{what}: the solution {got:?} misses {} = {} by {d:e} (margin {margin:e})", compact(l), compact(r));
            }
        }
    }
    Ok(())
}
/// The solution has the variables and the known values, and no other names
pub fn only_names(base: &Env, vars: &[String], got: &HashMap<String, f64>, tol: impl Fn(&str) -> f64, what: &dyn std::fmt::Display) -> Result<(), Failure> {
    for (k, v) in got {
        match base.get(k) {
            Some(Meaning::Value(w)) => ensure!(close(*v, *w, tol(k), 0.0), "{what}: the known {k} = {w:?} comes out as {v:?}"),
            Some(_) => fail!("{what}: the function {k} has a value"),
            None => ensure!(vars.contains(k), "{what}: the solution has the name {k:?}"),
        }
    }
    Ok(())
}

pub fn declared_of(spec: &Spec) -> HashMap<String, [f64; 3]> {
    spec.iter()
        .map(|(n, (g, b))| {
            let (lo, hi) = b.map_or((f64::NEG_INFINITY, f64::INFINITY), |(a, b)| (a.0, b.0));
            (n.clone(), [g.map_or(1.0, |g| g.0), lo, hi])
        })
        .collect()
}

// ------------------------------------------------------------------ C16

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C16Case {
    pub consts: Vec<(String, F)>,
    pub p: Planted,
    /// the program in two orders
    pub texts: Vec<String>,
    pub margin: F,
    pub limit: usize,
    /// by the preprocessing route too, with const lines
    full: bool,
    /// two names that one equation of the program leaves open
    open: Vec<String>,
}
pub struct C16;

pub fn eq_text(s: &mut Src, l: &Ex, r: &Ex) -> String {
    format!("{}{}={}{}", render(s, l, LINE_BLANKS), s.pick(&[" ", "", "  "]), s.pick(&[" ", ""]), render(s, r, LINE_BLANKS))
}

impl Prop for C16 {
    type Case = C16Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Programs of 1 to 10 variables in groups of 1 to 4 (a dense first equation or a ring of pairs), each group also over earlier variables and over constants: linear with arbitrary guesses, mildly nonlinear with guesses near the solution, and single curved equations; lines in two random orders with blank lines and indentation, under chosen hash orders, sometimes with an equation whose text contains that of another, or with one in two unknowns that nothing determines, through basic_solve and through solve_with_preprocessors. Every equation is evaluated at the reported values. Well-conditioned programs have to be solved. Non-trivial: solved, at least three variables, at least one group of two or more.";
    const QUICK: u64 = 300_000;
    const ASSUMPTIONS: &'static [&'static str] = &["programs with more equations than variables, and contradictory ones, are not judged", "the residual is judged with the reference evaluation's error bound on top of the margin"];

    fn generate(s: &mut Src) -> C16Case {
        let base = default_env();
        let n = if s.chance(1, 100) { s.usize(11, 20) } else { 1 + s.size(5, 9) };
        let nc = s.usize(0, 2);
        let mut names = program_names(s, n + nc + 3, &base);
        let mut open = names.split_off(n + nc);
        let late = open.pop().unwrap();
        let consts: Vec<(String, F)> = names.split_off(n).into_iter().map(|n| (n, F(gen_value(s)))).collect();
        let known = Known { add: consts.iter().map(|(n, v)| (n.clone(), v.0)).collect(), mul: vec![], plain: false };
        let mut p = gen_planted(s, names, &known);
        // one more equation, in whose text that of another one is found
        let inside = s.chance(1, 5).then(|| {
            let k = s.usize(0, p.items.len() - 1);
            let (c, w) = (s.usize(1, 5) as f64, s.int(-9, 9) as f64);
            let Item::Eq(l, r) = p.items[k].clone() else { unreachable!() };
            let v = num(c * w);
            let term = if c == 1.0 { name(&late) } else { bin('*', num(c), name(&late)) };
            let front = s.chance(1, 2);
            let text = if front { format!("{} - {} + ", compact(&term), compact(&v)) } else { format!(" + {} - {}", compact(&term), compact(&v)) };
            p.items.push(if front { Item::Eq(bin('+', bin('-', term, v), l), r) } else { Item::Eq(l, bin('-', bin('+', r, term), v)) });
            p.vars.push(late.clone());
            p.solution.push(F(w));
            (k, front, text)
        });
        // an equation in two unknowns that nothing else determines
        let extra = s.chance(1, 6).then(|| {
            let mut e = bin(*s.pick(&['+', '-', '*']), name(&open[0]), name(&open[1]));
            if s.chance(1, 2) {
                e = bin('+', e, name(&s.pick(&p.vars).clone()));
            }
            (e, num(s.decimal(20, 1)))
        });
        if extra.is_none() {
            open.clear();
        }
        let texts = (0..2)
            .map(|k| {
                let mut lines: Vec<String> = p.items.iter().map(|i| match i { Item::Eq(l, r) => eq_text(s, l, r), _ => unreachable!() }).collect();
                if let Some((k, front, t)) = &inside {
                    lines.pop();
                    lines.push(if *front { format!("{t}{}", lines[*k].trim_start()) } else { format!("{}{t}", lines[*k]) });
                }
                if let Some((l, r)) = &extra {
                    lines.push(eq_text(s, l, r));
                }
                if k == 1 || s.chance(2, 3) {
                    s.shuffle(&mut lines);
                }
                let messy = s.chance(1, 2);
                let mut t = String::new();
                for l in lines {
                    while messy && s.chance(1, 4) {
                        t += s.pick(&["\n", " \n", "\t\n"]);
                    }
                    if messy && s.chance(1, 4) {
                        t += s.pick(&["    ", "\t", " "]);
                    }
                    t += &l;
                    t.push('\n');
                }
                if s.chance(1, 3) {
                    t.pop();
                }
                t
            })
            .collect();
        C16Case { consts, p, texts, margin: F(*s.pick(&[1e-2, 1e-3, 1e-4, 1e-5, 1e-6])), limit: s.usize(30, 80), full: s.chance(1, 2), open }
    }

    fn check(c: &C16Case) -> Checked {
        let mut base = default_env();
        for (n, v) in &c.consts {
            base.insert(n.clone(), Meaning::Value(v.0));
        }
        let mut solved = 0;
        for t in &c.texts {
            let mut ctx = new_context();
            for (n, v) in &c.consts {
                ctx.add_const_to_ctx(n, v.0);
            }
            let mut declared = declared_of(&c.p.spec);
            let before = declared.clone();
            let what = format!("{t:?} with {:?} and {:?}", c.consts, c.p.spec);
            match basic_solve(t, &mut ctx, &mut declared, c.margin.0, c.limit) {
                Ok((_, got)) => {
                    holds(&c.p.items, &base, &c.p.vars, &c.p.spec, &got, c.margin.0, &what)?;
                    only_names(&base, &c.p.vars, &got, |_| 0.0, &what)?;
                    for (n, v) in &c.consts {
                        ensure!(matches!(ctx.get(n), Some(Token::Num(w)) if same_float(*w, v.0)), "{what}: the known {n} is altered: {:?}", ctx.get(n));
                    }
                    ensure!(declared == before, "{what}: the declared variables are altered");
                    solved += 1;
                }
                Err(e) => ensure!(!c.p.must, "{what}: not solved: {e}"),
            }
            if c.full {
                let mut lines: Vec<String> = c.consts.iter().map(|(n, v)| format!("const {n} = {}", v.0)).collect();
                for (n, (g, b)) in &c.p.spec {
                    if let Some(g) = g {
                        lines.push(format!("guess {} for {n}", g.0));
                    }
                    if let Some((a, b)) = b {
                        lines.push(format!("keep {n} on [{}, {}]", a.0, b.0));
                    }
                }
                let t = format!("{}\n{t}", lines.join("\n"));
                match solve_with_preprocessors(&t, c.margin.0, c.limit) {
                    Ok((_, got)) => {
                        holds(&c.p.items, &base, &c.p.vars, &c.p.spec, &got, c.margin.0, &t)?;
                        only_names(&base, &c.p.vars, &got, |_| 1e-15, &t)?;
                        solved += 1;
                    }
                    Err(e) => ensure!(!c.p.must, "{t:?}: not solved: {e}"),
                }
            }
        }
        ok(solved > 0 && c.p.vars.len() >= 3 && c.p.grouped, vec![if c.p.must { "must be solved" } else if solved > 0 { "solved" } else { "not solved" }])
    }
}

// ------------------------------------------------------------------ C17

/// Published values of engineering constants, by the name they have in a program
const PUBLISHED: &[(&str, f64)] = &[
    ("#NA", 6.022e26),
    ("#e", 1.602e-19),
    ("#g", 9.807),
    ("#F", 9.6485e7),
    ("#gc", 6.674e-11),
    ("#r_e", 2.8179e-15),
    ("#C1", 3.7418e8),
    ("#k", 1.3806e-23),
    ("#Black", 0.0),
    ("#White", 16777215.0),
    ("#epsilon_o", 8.8542e-12),
    ("#true", 1.0),
    ("#false", 0.0),
    ("#e_Me", 1.7588e11),
    ("#C2", 14388.0),
    ("#Me", 9.1094e-31),
    ("#Red", 255.0),
    ("#C3", 2897.8),
    ("#T_zero", 273.15),
    ("#Mn", 1.6749e-27),
    ("#Po", 101.325),
    ("#R_inf", 1.0974e7),
    ("#Mp", 1.6726e-27),
    ("#h", 6.626e-34),
    ("#Vo", 22.414),
    ("#Blue", 16711680.0),
    ("#R", 8.3145),
    ("#SndSpeed", 331.4),
    ("#sigma", 5.6704e-8),
    ("#G_sc", 1367.0),
    ("#h_fg_water", 2441.5),
    ("#U", 1.6605e-27),
    ("#Yellow", 65535.0),
    ("#C", 2.99792e8),
    ("#Green", 65280.0),
    ("#pi", std::f64::consts::PI),
    ("#muo", 1.25664e-6),
    ("#h_NH3", -46190.0),
    ("#h_C2H4", 52280.0),
    ("#h_CH2", 226730.0),
    ("#h_C6H6", 82930.0),
    ("#h_C2H5OH_g", -235310.0),
    ("#h_C2H5OH_l", -277690.0),
    ("#h_C8H18_l", -249950.0),
    ("#h_C8H18_g", -208450.0),
    ("#h_CH3OH_l", -238660.0),
    ("#h_CH3OH_g", -200670.0),
    ("#h_C3H6_g", -20410.0),
    ("#h_H2O2", -136310.0),
];
/// Conversions whose factors are published, and ones that contain each other
pub const CONVERSIONS: &[(&str, &str, f64)] = &[
    ("ft", "m", 0.3048),
    ("m", "ft", 1.0 / 0.3048),
    ("in", "cm", 2.54),
    ("cm", "in", 1.0 / 2.54),
    ("in", "m", 0.0254),
    ("mi", "km", 1.609344),
    ("yd", "ft", 3.0),
    ("min", "s", 60.0),
    ("s", "min", 1.0 / 60.0),
    ("hr", "min", 60.0),
    ("day", "hr", 24.0),
    ("m", "mm", 1000.0),
    ("mm", "m", 0.001),
    ("kg", "g", 1000.0),
    ("g", "kg", 0.001),
    ("kPa", "Pa", 1000.0),
    ("Pa", "kPa", 0.001),
    ("ft^2", "m^2", 0.09290304),
    ("ft^3", "m^3", 0.028316846592),
    ("m/s", "ft/s", 1.0 / 0.3048),
    ("km/hr", "m/s", 1.0 / 3.6),
    ("N-m", "J", 1.0),
    ("J", "ft-lbf", 0.737562),
    ("N/m^2", "Pa", 1.0),
    ("ft-lbf/s", "W", 1.355818),
    ("lbf/in^2", "psi", 1.0),
    ("m", "m", 1.0),
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C17Case {
    text: String,
    consts: Vec<(String, Ex)>,
    p: Planted,
    /// an equation with two roots, the nearer one, the other one
    two: Option<(String, F, F)>,
    /// entries of the declared variables that the caller made
    before: HashMap<String, [F; 3]>,
    margin: F,
    limit: usize,
    /// what is wrong with it, if anything
    wrong: Option<String>,
}
pub struct C17;

fn conversion_name(a: &str, b: &str) -> String {
    format!("[{a}->{b}]")
}

/// What annotations stand for, as far as published values tell; the tables of the library to full precision
fn annotations() -> Env {
    static CACHE: std::sync::OnceLock<Env> = std::sync::OnceLock::new();
    CACHE.get_or_init(annotations_of_the_library).clone()
}
fn annotations_of_the_library() -> Env {
    let mut e = Env::new();
    let d = const_data();
    for (n, _) in PUBLISHED {
        if let Some(v) = d.get(*n) {
            e.insert(n.to_string(), Meaning::Value(*v));
        }
    }
    for (a, b, _) in CONVERSIONS {
        if let Ok(v) = convert(a, b) {
            e.insert(conversion_name(a, b), Meaning::Value(v));
        }
    }
    e
}

fn comment(s: &mut Src, vars: &[String]) -> String {
    let v = s.pick(vars).clone();
    match s.below(13) {
        0 => "//".into(),
        1 => "// a remark".into(),
        2 => format!("// {v} = 3"),
        3 => format!("// guess 77 for {v}"),
        4 => format!("//keep {v} on [70, 71]"),
        5 => format!("// const {v} = 4"),
        6 => format!("// if {v} > 3:"),
        7 => "// else:".into(),
        8 => "//end".into(),
        9 => "// #nosuch and [ft->kg]".into(),
        10 => format!("/// {v} // = {v} // 1"),
        11 => "// \u{b5}m \u{2192} m".into(),
        _ => "// 1/2".into(),
    }
}
fn written(s: &mut Src, v: f64) -> String {
    let a = v.abs();
    let t = match s.below(5) {
        0 if a.fract() == 0.0 => format!("{a}."),
        1 if a.fract() == 0.0 => format!("{a}.0"),
        2 if a > 0.0 && a < 1.0 => format!("{a}")[1..].to_string(),
        3 if a >= 10.0 && a % 10.0 == 0.0 => format!("{}e1", a / 10.0),
        _ => format!("{a}"),
    };
    if v < 0.0 { format!("-{}{t}", if s.chance(1, 4) { " " } else { "" }) } else { t }
}
fn gap(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", "  ", "   "])
}
fn maybe(s: &mut Src) -> &'static str {
    s.pick(&["", "", " ", "  "])
}
fn keyword(s: &mut Src, w: &str) -> String {
    match s.below(8) {
        0 => w.to_uppercase(),
        1 => format!("{}{}", w[..1].to_uppercase(), &w[1..]),
        _ => w.to_string(),
    }
}
pub fn guess_line(s: &mut Src, n: &str, v: f64) -> String {
    let t = written(s, v);
    format!("{}{}{t}{}{}{}{n}", keyword(s, "guess"), gap(s), gap(s), keyword(s, "for"), gap(s))
}
pub fn keep_line(s: &mut Src, n: &str, a: f64, b: f64) -> String {
    let (ta, tb) = (written(s, a), written(s, b));
    format!("{}{}{n}{}{}{}[{}{ta}{},{}{tb}{}]", keyword(s, "keep"), gap(s), gap(s), keyword(s, "on"), gap(s), maybe(s), maybe(s), maybe(s), maybe(s))
}
/// Indents lines, adds blank and comment lines and comments, and chooses line endings
pub fn decorate(s: &mut Src, lines: Vec<String>, vars: &[String]) -> String {
    let style = s.below(4);
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut t = String::new();
    for l in lines {
        if style > 0 {
            while s.chance(1, 5) {
                let c = if s.chance(1, 2) { comment(s, vars) } else { String::new() };
                t += s.pick(&["", "", "  ", "\t"]);
                t += &c;
                t += eol;
            }
            t += s.pick(&["", "", "    ", "\t"]);
        }
        t += &l;
        if style > 1 && s.chance(1, 3) {
            t += s.pick(&["", " ", "   "]);
            if s.chance(2, 3) {
                t += &comment(s, vars);
            }
        }
        t += eol;
    }
    if s.chance(1, 4) {
        t.truncate(t.trim_end().len());
    }
    t
}

impl Prop for C17 {
    type Case = C17Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Planted programs with const lines over expressions, guess and keep lines in all number formats and spacings, engineering constants and unit conversions as coefficients and terms, comments whose text looks like code, blank lines, indentation and either line ending, in random line order, with names that begin like one another and like keywords; sometimes an equation with two roots and a guess or bounds that single one out, sometimes bounds that exclude the only root, sometimes an unknown constant or an impossible conversion. The declared variables, the constants, and every equation at the solution are compared with the model. Non-trivial: solved with at least two declarations or annotations, or an error is due.";
    const QUICK: u64 = 125_000;
    const ASSUMPTIONS: &'static [&'static str] = &["repeated declarations of one name are not judged", "tabs inside declarations and keywords of conditionals in capitals are not judged"];

    fn generate(s: &mut Src) -> C17Case {
        let mut env = default_env();
        let notes = annotations();
        let usable: Vec<(String, f64)> = notes.iter().filter_map(|(n, m)| match m { Meaning::Value(v) if v.abs() > 1e-3 && v.abs() < 2e3 => Some((n.clone(), *v)), _ => None }).collect();
        let n = if s.chance(1, 100) { s.usize(7, 14) } else { 1 + s.size(3, 5) };
        let nc = s.usize(0, 3);
        let mut names = program_names(s, n + nc + 2, &env);
        let open = names.split_off(n + nc);
        // constants of the program
        let mut consts: Vec<(String, Ex)> = vec![];
        let mut add: Vec<(String, f64)> = vec![];
        let mut full = env.clone();
        full.extend(notes.clone());
        for c in names.split_off(n) {
            let mut e = match s.below(4) {
                0 => num(gen_value(s)),
                1 => name(&s.pick(&usable).0.clone()),
                _ => {
                    // its names are built-in ones and annotations
                    let mut few = default_env();
                    for _ in 0..2 {
                        let (n, v) = s.pick(&usable).clone();
                        few.insert(n, Meaning::Value(v));
                    }
                    gen_expr(s, &few, 2)
                }
            };
            if s.chance(1, 12) {
                // any constant of the table
                let k = s.pick(PUBLISHED).0;
                e = match s.below(3) {
                    0 => name(k),
                    1 => bin('^', name(k), num(2.0)),
                    _ => bin('-', num(1.0), name(k)),
                };
            }
            let Ev::Is(v) = eval(&e, &full) else { continue };
            env.insert(c.clone(), Meaning::Value(v.v));
            if v.v.abs() > 1e-3 && v.v.abs() < 2e3 && v.err < 1e-11 {
                add.push((c.clone(), v.v));
            }
            consts.push((c, e));
        }
        for _ in 0..s.usize(0, 2) {
            add.push(s.pick(&usable).clone());
        }
        let mul = if s.chance(2, 3) { (0..2).map(|_| s.pick(&usable).clone()).collect() } else { vec![] };
        let mut p = gen_planted(s, names, &Known { add, mul, plain: false });
        // an equation with two roots, one of which a guess or bounds single out
        let mut two = None;
        if s.chance(1, 3) {
            let u = open[0].clone();
            let (r, d) = (s.decimal(20, 1), s.frac(3.0, 30.0));
            let q = short(r + d, 1);
            let e = bin('+', bin('-', bin('^', name(&u), num(2.0)), bin('*', num(short(r + q, 1)), name(&u))), num(short(r * q, 2)));
            let want_low = s.chance(1, 2);
            let (want, other) = if want_low { (r, q) } else { (q, r) };
            let mid = (r + q) / 2.0;
            let away = short(s.frac(0.6, 15.0), 1);
            let g = short(if want_low { mid - away } else { mid + away }, 1);
            let bounds = match s.below(3) {
                0 => None,
                1 => Some(if want_low { (F(short(want.min(g) - 50.0, 1)), F(short(mid - 0.3, 2))) } else { (F(short(mid + 0.3, 2)), F(short(want.max(g) + 50.0, 1))) }),
                _ => Some((F(-1e5), F(1e5))),
            };
            // the first step from near the middle overshoots by far
            let jump = |g: f64| mid + ((g - mid).powi(2) + (q - r).powi(2) / 4.0) / (2.0 * (g - mid));
            // without a guess the search starts at 1
            let needs_guess = !(if want_low { 1.0 < mid - 0.5 } else { 1.0 > mid + 0.5 });
            let guess = (needs_guess || bounds.is_some() || s.chance(2, 3)).then_some(F(g));
            if let Some((a, b)) = bounds {
                let j = jump(guess.map_or(1.0, |g| g.0));
                if j < a.0 + 1.0 || j > b.0 - 1.0 {
                    p.must = false;
                }
            }
            if guess.is_some() || bounds.is_some() {
                p.spec.insert(u.clone(), (guess, bounds));
            }
            p.items.push(Item::Eq(e, num(0.0)));
            p.vars.push(u.clone());
            p.solution.push(F(want));
            two = Some((u, F(want), F(other)));
        }
        let mut wrong = None;
        let mut lines: Vec<String> = vec![];
        for i in &p.items {
            if let Item::Eq(l, r) = i {
                lines.push(eq_text(s, l, r));
            }
        }
        for (n, e) in &consts {
            let t = render(s, e, LINE_BLANKS);
            lines.push(format!("{}{}{n}{}={}{t}", keyword(s, "const"), gap(s), maybe(s), maybe(s)));
        }
        if s.chance(1, 10) && p.items.len() >= 2 {
            // bounds that leave the only root out
            let i = s.below((p.vars.len() - two.is_some() as usize) as u64) as usize;
            let x = p.solution[i].0;
            let lo = short(x + s.frac(0.5, 5.0), 1);
            p.spec.insert(p.vars[i].clone(), (Some(F(short(lo + 1.0, 1))), Some((F(lo), F(short(lo + 3.0, 1))))));
            p.must = false;
        }
        for (n, (g, b)) in &p.spec {
            if let Some(g) = g {
                lines.push(guess_line(s, n, g.0));
            }
            if let Some((a, b)) = b {
                lines.push(keep_line(s, n, a.0, b.0));
            }
        }
        // declared for a name that no equation has
        let mut extra_spec: Spec = BTreeMap::new();
        if s.chance(1, 6) {
            let g = short(s.decimal(30, 1), 1);
            lines.push(guess_line(s, &open[1], g));
            extra_spec.insert(open[1].clone(), (Some(F(g)), None));
        }
        if s.chance(1, 12) {
            wrong = Some(match s.below(8) {
                0 => "#nosuch".to_string(),
                1 => format!("{}x", s.pick(PUBLISHED).0),
                2 => "[ft->kg]".into(),
                3 => "[foot->m]".into(),
                4 => "[m->m^2]".into(),
                5 => "[s->m/s]".into(),
                6 => "#G".into(),
                _ => "[FT->m]".into(),
            });
            let w = wrong.clone().unwrap();
            let i = s.below(lines.len() as u64) as usize;
            match s.below(3) {
                0 if lines[i].contains('=') => lines[i] += &format!(" + 0*{w}"),
                1 => lines.push(format!("const {} = 2*{w}", open[1])),
                _ => lines.push(format!("{} = {w}", open[1])),
            }
        }
        s.shuffle(&mut lines);
        let text = decorate(s, lines, &p.vars);
        let mut before = HashMap::new();
        if s.chance(1, 6) {
            for v in p.vars.iter().chain(&open) {
                if s.chance(1, 3) {
                    let x = p.vars.iter().position(|w| w == v).map_or(0.0, |i| p.solution[i].0);
                    before.insert(v.clone(), [F(x), F(x - 1000.0), F(x + 1000.0)]);
                }
            }
        }
        p.spec.extend(extra_spec);
        C17Case { text, consts, p, two, before, margin: F(*s.pick(&[1e-3, 1e-4, 1e-5, 1e-6])), limit: s.usize(40, 80), wrong }
    }

    fn check(c: &C17Case) -> Checked {
        let t = &c.text;
        let notes = annotations();
        // the annotations in this program have their published values
        for (n, v) in PUBLISHED {
            if t.contains(n) {
                let Some(Meaning::Value(w)) = notes.get(*n) else { fail!("the constant {n} is missing") };
                ensure!(close(*v, *w, 1.5e-3, 0.0), "the constant {n} is {w:?}, published as {v:?}");
            }
        }
        for (a, b, v) in CONVERSIONS {
            if t.contains(&conversion_name(a, b)) {
                let Some(Meaning::Value(w)) = notes.get(&conversion_name(a, b)) else { fail!("{a} is not converted to {b}") };
                ensure!(close(*v, *w, 1e-5, 0.0), "{a} to {b} is {w:?}, published as {v:?}");
            }
        }
        let mut base = default_env();
        base.extend(notes);
        let mut ctx = new_context();
        let mut declared: HashMap<String, [f64; 3]> = c.before.iter().map(|(n, v)| (n.clone(), [v[0].0, v[1].0, v[2].0])).collect();
        let compiled = compile(t, &mut ctx, &mut declared);
        let solved = solve_with_preprocessors(t, c.margin.0, c.limit);
        if let Some(w) = &c.wrong {
            ensure!(compiled.is_err(), "{t:?} has {w}, and compiles to {compiled:?}");
            ensure!(solved.is_err(), "{t:?} has {w}, and is solved: {:?}", solved.map(|x| x.1));
            return ok(true, vec!["unknown annotation"]);
        }
        let code = match compiled {
            Ok(c) => c,
            Err(e) => fail!("{t:?} does not compile: {e}"),
        };
        // declarations
        let mut want: HashMap<String, [f64; 3]> = c.before.iter().map(|(n, v)| (n.clone(), [v[0].0, v[1].0, v[2].0])).collect();
        for (n, (g, b)) in &c.p.spec {
            let e = want.entry(n.clone()).or_insert([1.0, f64::NEG_INFINITY, f64::INFINITY]);
            if let Some(g) = g {
                e[0] = g.0;
            }
            if let Some((a, b)) = b {
                e[1] = a.0;
                e[2] = b.0;
            }
        }
        ensure!(declared == want, "{t:?} declares {declared:?}, expected {want:?}");
        // constants
        let plain = new_context();
        let mut tol: HashMap<String, f64> = HashMap::new();
        for (n, e) in &c.consts {
            let Ev::Is(v) = eval(e, &base) else { continue };
            let got = match ctx.get(n) {
                Some(Token::Num(x)) => *x,
                x => fail!("{t:?}: the constant {n} is {x:?}, expected {:?}", v.v),
            };
            ensure!((got - v.v).abs() <= v.err + 1e-15 * v.v.abs(), "{t:?}: the constant {n} is {got:?}, expected {:?}", v.v);
            tol.insert(n.clone(), v.err / v.v.abs().max(1e-300) + 1e-14);
        }
        for (n, e) in &c.consts {
            if let Ev::Is(v) = eval(e, &base.clone()) {
                base.insert(n.clone(), Meaning::Value(v.v));
            }
        }
        ensure!(ctx.len() == plain.len() + c.consts.len(), "{t:?}: the context has {} names more than the default one", ctx.len() as i64 - plain.len() as i64);
        let got = match solved {
            Ok((_, got)) => got,
            Err(e) => {
                ensure!(!c.p.must, "{t:?} is not solved: {e}\ncompiled: {code:?}");
                return ok(c.p.spec.len() + c.consts.len() >= 2, vec!["not solved"]);
            }
        };
        // constants are used as their computed values
        for (n, _) in &c.consts {
            if let Some(Token::Num(x)) = ctx.get(n) {
                base.insert(n.clone(), Meaning::Value(*x));
            }
        }
        holds(&c.p.items, &base, &c.p.vars, &c.p.spec, &got, c.margin.0, t)?;
        let mut visible: Env = base.iter().filter(|(n, _)| !n.starts_with(['#', '['])).map(|(n, m)| (n.clone(), m.clone())).collect();
        visible.insert("pi".into(), Meaning::Value(std::f64::consts::PI));
        only_names(&visible, &c.p.vars, &got, |n| tol.get(n).copied().unwrap_or(1e-15), t)?;
        if let Some((u, want, other)) = &c.two {
            let v = got[u];
            ensure!((v - want.0).abs() < (v - other.0).abs(), "{t:?}: {u} = {v:?}, and its declarations single out the root {:?}", want.0);
        }
        ok(c.p.spec.len() + c.consts.len() + t.matches(['#', '[']).count() >= 2, vec![if c.two.is_some() { "two roots" } else { "solved" }])
    }
}

// ------------------------------------------------------------------ C18

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C18Case {
    text: String,
    consts: Vec<(String, F)>,
    p: Planted,
    margin: F,
    limit: usize,
    /// what is wrong with one of its blocks, if anything
    wrong: Option<String>,
    /// how deep blocks are nested
    depth: usize,
    /// a comparison of equal constants
    boundary: bool,
}
pub struct C18;

/// An affine equation with one root for `u`, over other known names too
fn branch(s: &mut Src, u: &str, root: f64, others: &[(String, f64)]) -> Item {
    let mut c = s.decimal(6, 1);
    if c.abs() < 0.4 {
        c = if c < 0.0 { -1.0 } else { 1.0 };
    }
    let mut coefs = vec![(c, u)];
    let mut rhs = c * root;
    if !others.is_empty() && s.chance(1, 2) {
        let (n, v) = s.pick(others);
        let k = s.decimal(3, 1);
        if k != 0.0 && n != u {
            coefs.push((k, n));
            rhs += k * v;
        }
    }
    let (l, r) = equation(s, &coefs, vec![], short(rhs, 8), &[]);
    Item::Eq(l, r)
}

pub struct Conds<'a> {
    /// names with exact values
    pub exact: &'a [(String, f64)],
    /// variables with planted values, solved before
    pub solved: &'a [(String, f64)],
    pub boundary: bool,
}

pub fn side(s: &mut Src, c: &Conds, solved: bool) -> (Ex, f64) {
    let pool = if solved { c.solved } else { c.exact };
    if pool.is_empty() || !solved && s.chance(1, 4) {
        let v = s.decimal(9, 1);
        return (num(v), v);
    }
    let (n, v) = s.pick(pool).clone();
    match s.below(6) {
        0 => (bin('+', name(&n), Ex::Num("1".into())), v + 1.0),
        1 => (bin('*', Ex::Num("2".into()), name(&n)), 2.0 * v),
        2 => (Ex::Neg(Box::new(name(&n))), -v),
        3 => (call("abs", vec![name(&n)]), v.abs()),
        _ => (name(&n), v),
    }
}

pub fn gen_block(s: &mut Src, c: &mut Conds, depth: usize, leaf: &mut dyn FnMut(&mut Src) -> Item) -> Item {
    let op = s.usize(0, 5);
    // the sides differ clearly, or consist of exact constants
    let (a, b) = if !c.solved.is_empty() && s.chance(1, 2) {
        let (a, va) = side(s, c, true);
        let (b, vb) = { let k = s.chance(1, 3); side(s, c, k) };
        let (b, vb) = if (va - vb).abs() < 0.5 {
            let v = short(va + if s.chance(1, 2) { 1.0 } else { -1.0 } * s.frac(0.6, 6.0), 1);
            (num(v), v)
        } else {
            (b, vb)
        };
        let _ = vb;
        if s.chance(1, 2) { (b, a) } else { (a, b) }
    } else {
        let (a, va) = side(s, c, false);
        let (b, vb) = if s.chance(1, 3) { (num(va), va) } else { side(s, c, false) };
        c.boundary |= va == vb;
        if s.chance(1, 2) { (b, a) } else { (a, b) }
    };
    let sub = |s: &mut Src, c: &mut Conds, leaf: &mut dyn FnMut(&mut Src) -> Item| if depth > 1 && s.chance(2, 3) { gen_block(s, c, depth - 1, leaf) } else { leaf(s) };
    let yes = sub(s, c, leaf);
    let no = sub(s, c, leaf);
    Item::If(Box::new(Block { a, op, b, yes, no }))
}
fn depth_of(i: &Item) -> usize {
    match i {
        Item::Eq(..) => 0,
        Item::If(b) => 1 + depth_of(&b.yes).max(depth_of(&b.no)),
    }
}
fn blocks_of(i: &Item) -> usize {
    match i {
        Item::Eq(..) => 0,
        Item::If(b) => 1 + blocks_of(&b.yes) + blocks_of(&b.no),
    }
}

/// The lines of an item; `odd` replaces the comparison of the k-th block
pub fn block_lines(s: &mut Src, i: &Item, indent: usize, k: &mut i64, odd: Option<(i64, &str)>, out: &mut Vec<String>) {
    let pad = "    ".repeat(indent);
    match i {
        Item::Eq(l, r) => out.push(format!("{pad}{}", eq_text(s, l, r))),
        Item::If(b) => {
            let op = match odd {
                Some((at, o)) if at == *k => o,
                _ => COMPARE[b.op].0,
            };
            *k += 1;
            let (x, y) = (render(s, &b.a, LINE_BLANKS), render(s, &b.b, LINE_BLANKS));
            let (g, h) = (s.pick(&[" ", " ", ""]), s.pick(&["", "", " "]));
            out.push(format!("{pad}if{}{}{g}{op}{g}{}{h}:", s.pick(&[" ", " ", "  "]), x.trim(), y.trim()));
            block_lines(s, &b.yes, indent + 1, k, odd, out);
            out.push(format!("{pad}else{}:", s.pick(&["", "", "", " "])));
            block_lines(s, &b.no, indent + 1, k, odd, out);
            out.push(format!("{pad}end"));
        }
    }
}

impl Prop for C18 {
    type Case = C18Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "Planted programs with one to three if/else blocks, nested up to four deep in either branch: conditions over constants (equal ones too) and over variables solved elsewhere in the program (clearly apart), all six comparisons; branches that determine the same variable or different ones with a further equation; blocks placed anywhere, with comments, blank lines, declarations, indentation and either line ending; names that contain keywords. The equations of the branches whose conditions hold at the solution are evaluated there. Also blocks with an invalid comparison or with a missing or surplus line, which are errors. Non-trivial: solved with a nested block or a comparison of equal constants or a condition over variables, or an error is due.";
    const QUICK: u64 = 240_000;

    fn generate(s: &mut Src) -> C18Case {
        let base = default_env();
        let n = s.usize(0, 3);
        let k = s.tail(0, 4);
        let nb = 1 + k + s.weighted(&[5, 3, 1]);
        let nc = s.usize(1, 3);
        let mut names = program_names(s, n + nc + 2 * nb, &base);
        let targets = names.split_off(n + nc);
        let consts: Vec<(String, F)> = names.split_off(n).into_iter().map(|n| (n, F(s.decimal(9, 1)))).collect();
        let mut exact: Vec<(String, f64)> = consts.iter().map(|(n, v)| (n.clone(), v.0)).collect();
        if s.chance(1, 3) {
            // a second name of the same value
            let v = exact[0].1;
            exact.push((exact[0].0.clone(), v));
        }
        let mut p = gen_planted(s, names, &Known { add: vec![], mul: vec![], plain: true });
        let mut boundary = false;
        let mut depth = 0;
        let mut blocks = 0;
        let mut solved: Vec<(String, f64)> = p.vars.iter().cloned().zip(raw(&p.solution)).collect();
        for k in 0..nb {
            let (u, v) = (&targets[2 * k], &targets[2 * k + 1]);
            let k = s.tail(0, 3);
            let levels = 1 + k + s.weighted(&[5, 3, 2, 1]);
            let before = solved.clone();
            // conditions of later blocks depend on earlier ones only when the branches agree on the value
            let conds = before.clone();
            let mut c = Conds { exact: &exact, solved: &conds, boundary: false };
            if s.chance(2, 3) {
                // every branch determines u
                let agree = s.chance(1, 2);
                let root = s.decimal(12, 1);
                let i = gen_block(s, &mut c, levels, &mut |s| {
                    let r = if agree { root } else { s.decimal(12, 1) };
                    branch(s, u, r, &before)
                });
                depth = depth.max(depth_of(&i));
                blocks += blocks_of(&i);
                p.items.push(i);
                p.vars.push(u.clone());
                if agree {
                    solved.push((u.clone(), root));
                }
                p.solution.push(F(root));
            } else {
                // branches over different variables, and their sum
                let i = gen_block(s, &mut c, levels, &mut |s| {
                    let w = if s.chance(1, 2) { u } else { v };
                    let r = s.decimal(9, 1);
                    branch(s, w, r, &before)
                });
                depth = depth.max(depth_of(&i));
                blocks += blocks_of(&i);
                p.items.push(i);
                let t = short(s.decimal(15, 1), 1);
                let k = if s.chance(1, 2) { 2.0 } else { -1.0 };
                let (l, r) = equation(s, &[(1.0, u), (k, v)], vec![], t, &[]);
                p.items.push(Item::Eq(l, r));
                p.vars.push(u.clone());
                p.vars.push(v.clone());
                p.solution.push(F(0.0));
                p.solution.push(F(0.0));
            }
            boundary |= c.boundary;
        }
        let mut wrong = None;
        let mut odd = None;
        if s.chance(1, 8) {
            let o = *s.pick(&["=<", "=>", "=", "<>", "><", ">>", "<<", "===", "<==", ">==", "", "!", "!==", "~="]);
            odd = Some((s.below(blocks as u64) as i64, o));
            wrong = Some(format!("the comparison {o:?}"));
        }
        let mut k = 0;
        let mut chunks: Vec<Vec<String>> = vec![];
        for i in &p.items {
            let mut out = vec![];
            block_lines(s, i, 0, &mut k, odd, &mut out);
            chunks.push(out);
        }
        if wrong.is_none() && s.chance(1, 20) {
            // one line of a block too few or too many
            let with: Vec<usize> = (0..chunks.len()).filter(|&i| chunks[i].len() > 1).collect();
            let i = *s.pick(&with);
            let j = s.below(chunks[i].len() as u64) as usize;
            if s.chance(1, 2) {
                let l = chunks[i].remove(j);
                wrong = Some(format!("{l:?} missing"));
            } else {
                // a branch has a second line: after an equation of a branch
                let at: Vec<usize> = (0..chunks[i].len()).filter(|&j| !chunks[i][j].trim_end().ends_with(':') && chunks[i][j].trim() != "end").collect();
                let j = *s.pick(&at);
                let l = format!("{} = 1", targets[0]);
                chunks[i].insert(j + 1, l);
                wrong = Some("a branch of two lines".into());
            }
        }
        let mut lines: Vec<String> = vec![];
        for (n, v) in &consts {
            lines.push(format!("const {n} = {}", v.0));
        }
        for (n, (g, b)) in &p.spec {
            if let Some(g) = g {
                lines.push(guess_line(s, n, g.0));
            }
            if let Some((a, b)) = b {
                lines.push(keep_line(s, n, a.0, b.0));
            }
        }
        // declarations may stand inside blocks
        let mut rest = vec![];
        for l in lines {
            if s.chance(1, 8) {
                let i = s.below(chunks.len() as u64) as usize;
                let j = s.usize(0, chunks[i].len());
                chunks[i].insert(j, l);
            } else {
                rest.push(vec![l]);
            }
        }
        chunks.extend(rest);
        s.shuffle(&mut chunks);
        let text = decorate(s, chunks.concat(), &p.vars);
        C18Case { text, consts, p, margin: F(*s.pick(&[1e-3, 1e-4, 1e-5])), limit: s.usize(40, 80), wrong, depth, boundary }
    }

    fn check(c: &C18Case) -> Checked {
        let t = &c.text;
        let r = solve_with_preprocessors(t, c.margin.0, c.limit);
        if let Some(w) = &c.wrong {
            ensure!(r.is_err(), "{t:?} has {w}, and is solved: {:?}", r.map(|x| x.1));
            return ok(true, vec!["error due"]);
        }
        let mut base = default_env();
        for (n, v) in &c.consts {
            base.insert(n.clone(), Meaning::Value(v.0));
        }
        let got = match r {
            Ok((_, got)) => got,
            Err(e) => {
                let mut ctx: ContextHashMap = new_context();
                ensure!(!c.p.must, "{t:?} is not solved: {e}\ncompiled: {:?}", compile(t, &mut ctx, &mut HashMap::new()));
                return ok(false, vec!["not solved"]);
            }
        };
        holds(&c.p.items, &base, &c.p.vars, &c.p.spec, &got, c.margin.0, t)?;
        only_names(&base, &c.p.vars, &got, |_| 0.0, t)?;
        let mut vars_in_conditions = false;
        for i in &c.p.items {
            if let Item::If(b) = i {
                let mut ns = vec![];
                names(&b.a, &mut ns);
                names(&b.b, &mut ns);
                vars_in_conditions |= ns.iter().any(|n| c.p.vars.iter().any(|v| v == n));
            }
        }
        ok(c.depth >= 2 || c.boundary || vars_in_conditions, vec![if c.depth >= 2 { "nested" } else if c.boundary { "boundary" } else { "solved" }])
    }
}
