//! C12 to C15: solving one equation, building and solving systems, the C interface.

use super::expressions::{gen_value, mutate, Ctx};
use crate::engine::*;
use crate::expr::*;
use crate::linear::*;
use crate::util::*;
use crate::{alloc, ensure, fail};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
use geqslib::system::{get_equation_unknowns, ConstrainResult, SystemBuilder};
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};

fn same_ctx(a: &ContextHashMap, b: &ContextHashMap) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_token(v, w)))
}
fn same_token(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Num(x), Token::Num(y)) => same_float(*x, *y),
        (Token::Var(x), Token::Var(y)) => *x.borrow() == *y.borrow(),
        (Token::Func(n, f), Token::Func(m, g)) => n == m && (*f as *const () as usize) == (*g as *const () as usize),
        _ => a == b,
    }
}
/// A copy that does not share variables
pub fn deep(a: &ContextHashMap) -> ContextHashMap {
    a.iter()
        .map(|(k, v)| {
            (
                k.clone(),
                match v {
                    Token::Var(x) => Token::Var(std::rc::Rc::new(std::cell::RefCell::new(*x.borrow()))),
                    t => t.clone(),
                },
            )
        })
        .collect()
}

fn legal_word(w: &str) -> bool {
    w.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
/// The words of a well-formed equation that are not known
fn unknowns_of(text: &str, env: &Env) -> BTreeSet<String> {
    text.split(|c: char| c.is_whitespace() || "()^*/+-,=".contains(c)).filter(|w| legal_word(w) && !env.contains_key(*w)).map(|w| w.to_string()).collect()
}
/// Whether the text is one equals sign between two expressions over the names of `env` and unknowns;
/// None when that is not specified.
fn well_formed(text: &str, env: &Env) -> Option<bool> {
    let mut e = env.clone();
    for u in unknowns_of(text, env) {
        e.insert(u, Meaning::Value(1.0));
    }
    let sides: Vec<&str> = text.split('=').collect();
    if sides.len() != 2 {
        return Some(false);
    }
    let mut good = true;
    for s in sides {
        match parse(s, &e) {
            Parsed::Good(_) => {}
            Parsed::Bad(_) => good = false,
            Parsed::Unspecified => return None,
        }
    }
    Some(good)
}

// ------------------------------------------------------------------ C12

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C12Case {
    ctx: Ctx,
    left: Ex,
    right: Ex,
    text: String,
    unknown: String,
    guess: F,
    min: F,
    max: F,
    margin: F,
    limit: usize,
    /// has a simple root in reach of the guess
    must: bool,
    /// the number of names that are not known
    unknowns: usize,
    from_str: bool,
    affine: bool,
}
pub struct C12;

impl Prop for C12 {
    type Case = C12Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "Equations in one unknown under a context of constants and functions: planted roots in families on which Newton's method converges (affine with the unknown on both sides and several times, cubic, exponential, sine-perturbed; known terms added to both sides), with guesses in reach and bounds that contain both, and arbitrary equations with arbitrary guesses and bounds; also equations with no or several unknowns and malformed ones. Every answer is put into a reference evaluation of both sides, and in the planted families its estimated distance to the root has to be within the margin. Non-trivial: an equation is solved whose unknown appears at least twice or beside a known name, or a refusal is due.";
    const QUICK: u64 = 625_000;
    const ASSUMPTIONS: &'static [&'static str] = &["the residual is judged with the reference evaluation's error bound on top of the margin"];

    fn generate(s: &mut Src) -> C12Case {
        let plain_ctx = s.chance(1, 4);
        let base = default_env();
        let (nc, nf) = if plain_ctx { (0, 0) } else { (s.usize(0, 3), s.usize(0, 1)) };
        let mut n = gen_names(s, nc + nf + 1, &base);
        let unknown = n.pop().unwrap();
        let funcs: Vec<(String, usize)> = n.split_off(nc).into_iter().map(|x| (x, s.usize(0, CUSTOM.len() - 1))).collect();
        let consts: Vec<(String, F)> = n.into_iter().map(|x| (x, F(gen_value(s)))).collect();
        let ctx = Ctx { default: true, consts, vars: vec![], funcs };
        let env = ctx.env();
        let mut margin = *s.pick(&[1e-2, 1e-3, 1e-4, 1e-5, 1e-6]);
        let mut known: Vec<(String, f64)> = ctx.consts.iter().map(|(n, v)| (n.clone(), v.0)).collect();
        let u = || name(&unknown);
        let inf = f64::INFINITY;
        let mut limit = 50;
        let mut must = true;
        let mut unknowns = 1;
        let mut affine = false;
        let (mut min, mut max) = (-inf, inf);
        let (left, right, guess);
        match s.weighted(&[6, 2, 2, 2, 4, 1, 1]) {
            k @ 0..=3 => {
                let (r, extra, fixed): (f64, Vec<Ex>, f64);
                let mut coefs: Vec<(f64, &str)> = vec![];
                match k {
                    0 => {
                        // a few roots are far away, or tiny
                        affine = true;
                        let far = s.chance(1, 8);
                        let mut scale = 1.0;
                        if far {
                            scale = 10f64.powi(if s.chance(2, 3) { s.int(3, 6) } else { s.int(-9, -3) } as i32);
                            margin = if scale > 1.0 { 1e-2 } else { 1e-6 * scale };
                            if scale < 1.0 {
                                known.clear();
                            }
                        }
                        r = short(s.decimal(60, 2) * scale, 12);
                        // several terms whose slopes do not cancel
                        let mut total = 0.0;
                        for _ in 0..s.usize(1, 4) {
                            let c = s.decimal(9, 1);
                            total += c;
                            coefs.push((c, &unknown));
                        }
                        if f64::abs(total) < 0.3 {
                            coefs.push((2.0, &unknown));
                            total += 2.0;
                        }
                        extra = vec![];
                        fixed = short(total * r, if far { 13 } else { 6 });
                        guess = if far { s.decimal(100, 1) * scale.min(1.0) } else { s.decimal(100, 1) };
                        limit = s.usize(12, 60);
                        if s.chance(1, 2) {
                            let (a, b) = (r.min(guess) - s.frac(0.5, 20.0) * scale.max(1.0), r.max(guess) + s.frac(0.5, 20.0) * scale.max(1.0));
                            (min, max) = match s.below(3) {
                                0 => (a, inf),
                                1 => (-inf, b),
                                _ => (a, b),
                            };
                        }
                    }
                    1 => {
                        r = s.decimal(4, 2);
                        let (a, b) = (s.decimal(2, 1).abs() + 0.1, s.decimal(4, 1).abs() + 0.5);
                        coefs.push((b, &unknown));
                        let cube = if s.chance(1, 2) { bin('^', u(), num(3.0)) } else { bin('*', u(), bin('*', u(), u())) };
                        extra = vec![bin('*', num(a), cube)];
                        fixed = short(a * r * r * r + b * r, 8);
                        guess = r + s.frac(-3.0, 3.0);
                    }
                    2 => {
                        r = s.frac(-2.0, 3.0);
                        coefs.push((1.0, &unknown));
                        extra = vec![bin('^', name("e"), u())];
                        fixed = short(r + r.exp(), 9);
                        guess = r + s.frac(-1.0, 1.0);
                        if s.chance(1, 2) {
                            (min, max) = (r - 6.0, r + 6.0);
                        }
                    }
                    _ => {
                        r = s.decimal(20, 2);
                        coefs.push((1.0, &unknown));
                        extra = vec![bin('*', num(0.3), call("sin", vec![u()]))];
                        fixed = short(r + 0.3 * r.sin(), 9);
                        guess = r + s.frac(-5.0, 5.0);
                        if s.chance(1, 2) {
                            (min, max) = (r - 30.0, r + 30.0);
                        }
                    }
                }
                let (mut l, mut rt) = equation(s, &coefs, extra, fixed, &known);
                // the same known expression on both sides
                if s.chance(1, 3) && margin > 1e-8 {
                    let e = gen_expr(s, &env, 2);
                    if matches!(eval(&e, &env), Ev::Is(v) if v.v.abs() < 1e3 && v.err < 1e-10) {
                        l = bin('+', l, e.clone());
                        rt = bin('+', rt, e);
                    }
                }
                (left, right) = (l, rt);
                min = short(min, 3);
                max = short(max, 3);
            }
            4 => {
                // arbitrary, with the unknown in it
                let mut e2 = env.clone();
                e2.insert(unknown.clone(), Meaning::Value(1.0));
                let (d1, d2) = (s.usize(1, 3), s.usize(0, 2));
                let a = gen_expr(s, &e2, d1);
                left = bin(*s.pick(&['+', '-', '*']), a, u());
                right = gen_expr(s, &e2, d2);
                guess = s.decimal(10, 1);
                must = false;
                limit = s.usize(0, 40);
                if s.chance(2, 3) {
                    min = guess - s.decimal(5, 1).abs();
                    max = guess + s.decimal(5, 1).abs();
                    if s.chance(1, 6) {
                        // a guess outside the bounds
                        min += 6.0;
                        max += 6.0;
                    }
                }
            }
            5 => {
                // no unknown
                left = gen_expr(s, &env, 2);
                right = gen_expr(s, &env, 2);
                guess = 1.0;
                must = false;
                unknowns = 0;
            }
            _ => {
                // two unknowns
                let mut taken = env.clone();
                taken.insert(unknown.clone(), Meaning::Value(1.0));
                let other = gen_names(s, 1, &taken).pop().unwrap();
                left = bin('+', bin('*', num(2.0), u()), name(&other));
                right = num(s.decimal(9, 1));
                guess = 1.0;
                must = false;
                unknowns = 2;
            }
        }
        let text = format!("{}{}={}{}", render(s, &left, BLANKS), s.pick(&["", " ", "  "]), s.pick(&["", " "]), render(s, &right, BLANKS));
        let mut c = C12Case { ctx, left, right, text, unknown, guess: F(guess), min: F(min), max: F(max), margin: F(margin), limit, must, unknowns, from_str: false, affine };
        if s.chance(1, 15) {
            c.margin = F(*s.pick(&[0.0, -1e-3]));
            c.must = false;
        }
        if c.must && c.ctx.consts.is_empty() && c.ctx.funcs.is_empty() && min == -inf && max == inf && s.chance(1, 2) {
            c.from_str = true;
        }
        c
    }

    fn check(c: &C12Case) -> Checked {
        let mut ctx = c.ctx.real();
        let before = deep(&ctx);
        let m = c.margin.0;
        let shown = format!("{:?} for {} from {:?} in [{:?}, {:?}], margin {m:e}, limit {}", c.text, c.unknown, c.guess.0, c.min.0, c.max.0, c.limit);
        let r = solve_equation_with_context(&c.text, &mut ctx, c.guess.0, c.min.0, c.max.0, m, c.limit);
        let mut rs = vec![];
        // what was known stays as it was, solved or not
        for (k, v) in &before {
            ensure!(ctx.get(k).is_some_and(|w| same_token(v, w)), "{shown}: the known {k} is altered");
        }
        ensure!(ctx.keys().all(|k| before.contains_key(k) || *k == c.unknown), "{shown}: the context gains names: {:?}", ctx.keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>());
        match r {
            Ok(x) => rs.push(x),
            Err(e) => {
                ensure!(same_ctx(&before, &ctx), "{shown}: refused ({e}), and the context changes");
                ensure!(!c.must, "{shown}: not solved ({e})");
            }
        }
        if c.from_str {
            // the guess is then 1; affine equations are solved from any guess
            match solve_equation_from_str(&c.text, m, c.limit) {
                Ok(x) => rs.push(x),
                Err(e) => ensure!(!(c.must && c.affine), "{shown}: not solved by solve_equation_from_str ({e})"),
            }
        }
        for (k, (n, v)) in rs.iter().enumerate() {
            ensure!(c.unknowns == 1, "{shown}: has {} unknowns and the solution {n} = {v:?}", c.unknowns);
            ensure!(m > 0.0 && c.limit > 0, "{shown}: solved");
            ensure!(*n == c.unknown, "{shown}: solved for {n:?}");
            ensure!(k == 1 || c.min.0 <= *v && *v <= c.max.0, "{shown}: {v:?} is outside the bounds");
            let mut env = c.ctx.env();
            env.insert(n.clone(), Meaning::Value(*v));
            if let Some((d, err)) = residual(&c.left, &c.right, &env) {
                ensure!(d <= m * (1.0 + 1e-9) + err, "{shown}: at {v:?} the sides differ by {d:e}");
            }
            // the root is as near, by the slope there, as the sides are
            let diff = |x: f64| {
                let mut env = env.clone();
                env.insert(n.clone(), Meaning::Value(x));
                match (eval(&c.left, &env), eval(&c.right, &env)) {
                    (Ev::Is(a), Ev::Is(b)) => Some((a.v - b.v, a.err + b.err)),
                    _ => None,
                }
            };
            if let (true, true, Some(y), Some(y2)) = (c.must, c.min.0.is_infinite() && c.max.0.is_infinite(), diff(*v), diff(*v + 1e-3)) {
                let d = y.0.abs() / (y2.0 - y.0).abs() * 1e-3;
                let unsure = (2.0 * y.1 + 1e3 * m.min(1.0) * (y.1 + y2.1)) / ((y2.0 - y.0).abs() * 1e3) + 1e-14 * v.abs();
                ensure!(d <= m * 1.01 + 10.0 * unsure, "{shown}: {v:?} is an estimated {d:e} away from the root");
            }
        }
        let mut ns = vec![];
        names(&c.left, &mut ns);
        names(&c.right, &mut ns);
        ok(!rs.is_empty() && ns.len() >= 2 || c.unknowns != 1, vec![if c.unknowns != 1 { "wrong number of unknowns" } else if rs.is_empty() { "not solved" } else if c.must { "planted root" } else { "solved" }])
    }
}

// ------------------------------------------------------------------ C13

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C13Case {
    ctx: Ctx,
    first: String,
    offers: Vec<String>,
    /// offered together at the end
    rest: Vec<String>,
}
pub struct C13;

pub fn gen_equation_over(s: &mut Src, pool: &[String], consts: &[String], max_names: usize) -> String {
    let k = s.usize(1, max_names);
    let mut terms = vec![];
    for _ in 0..k {
        let v = name(&s.pick(pool).clone());
        terms.push(match s.below(6) {
            0 => v,
            1 => bin('*', num(s.usize(1, 9) as f64), v),
            2 => bin('^', v, num(2.0)),
            3 => call("sin", vec![v]),
            4 => bin('*', Ex::Num(format!("{}e{}", s.usize(1, 3), s.usize(0, 2))), v),
            _ => Ex::Neg(Box::new(v)),
        });
    }
    if !consts.is_empty() && s.chance(1, 3) {
        terms.push(name(&s.pick(consts).clone()));
    }
    let rhs = if s.chance(1, 4) { terms.pop().unwrap() } else { num(s.usize(0, 50) as f64) };
    let mut l = num(s.usize(0, 3) as f64);
    for t in terms {
        l = bin(*s.pick(&['+', '-']), l, t);
    }
    format!("{} = {}", render(s, &l, BLANKS), render(s, &rhs, BLANKS))
}

impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "A context with constants, functions and sometimes specified variables; a first equation and a history of up to 12 offered equations over a pool of up to 7 names, some malformed, some repeated, some over new names; then a list offered at once. After every step unknowns, count and answer are compared with a set model. Non-trivial: at least two different answers are given in the history.";
    const QUICK: u64 = 625_000;

    fn generate(s: &mut Src) -> C13Case {
        let mut ctx = Ctx { default: true, consts: vec![], vars: vec![], funcs: vec![] };
        let base = ctx.env();
        let k = s.tail(7, 20);
        let np = s.usize(1, k);
        let mut n = gen_names(s, np + 2, &base);
        let consts: Vec<String> = n.drain(..2).collect();
        for c in &consts {
            ctx.consts.push((c.clone(), F(gen_value(s))));
        }
        // some of the unknowns are specified beforehand
        for x in &n {
            if s.chance(1, 6) {
                ctx.vars.push((x.clone(), F(1.0), F(-100.0), F(100.0)));
            }
        }
        let mut eq = |s: &mut Src, k: usize| {
            let t = gen_equation_over(s, &n, &consts, k);
            if s.chance(1, 8) { mutate(s, &t) } else { t }
        };
        let first = eq(s, 4);
        let k = s.tail(12, 40);
        let offers = (0..s.usize(0, k)).map(|_| eq(s, 3)).collect();
        let k = s.tail(6, 25);
        let rest = (0..s.usize(0, k)).map(|_| gen_equation_over(s, &n, &consts, 3)).collect();
        C13Case { ctx, first, offers, rest }
    }

    fn check(c: &C13Case) -> Checked {
        // names specified as variables in the context are unknowns of the system all the same
        let mut env = c.ctx.env();
        for (n, ..) in &c.ctx.vars {
            env.remove(n);
        }
        let ctx = c.ctx.real();
        let mut unknown: BTreeSet<String>;
        let wf = well_formed(&c.first, &env);
        let b = SystemBuilder::new(&c.first, ctx);
        let Some(wf) = wf else { return ok(false, vec!["unspecified"]) };
        let mut b = match b {
            Ok(b) => {
                ensure!(wf, "{:?} starts a system", c.first);
                b
            }
            Err(e) => {
                ensure!(!wf, "{:?} is refused: {e}", c.first);
                return ok(false, vec!["malformed start"]);
            }
        };
        unknown = unknowns_of(&c.first, &env);
        let mut count = 1usize;
        let state = |b: &SystemBuilder, unknown: &BTreeSet<String>, count: usize, what: &str| -> Result<(), Failure> {
            let got: BTreeSet<String> = b.get_vars().iter().cloned().collect();
            ensure!(got == *unknown && b.get_vars().len() == unknown.len(), "{what}: the unknowns are {:?}, expected {unknown:?}", b.get_vars());
            ensure!(b.is_fully_constrained() == (count == unknown.len()), "{what}: {count} equations, {} unknowns, fully constrained: {}", unknown.len(), b.is_fully_constrained());
            Ok(())
        };
        state(&b, &unknown, count, &format!("after {:?}", c.first))?;
        let mut seen = BTreeSet::new();
        for o in &c.offers {
            let wf = well_formed(o, &env);
            let r = b.try_constrain_with(o);
            let full = count == unknown.len();
            let fresh: Vec<String> = unknowns_of(o, &env).difference(&unknown).cloned().collect();
            let what = format!("after offering {o:?} to {count} equations in {unknown:?}");
            let Some(wf) = wf else {
                // resynchronise is impossible: what was accepted is not specified
                return ok(seen.len() >= 2, vec!["unspecified"]);
            };
            match &r {
                // names cannot be counted in a text that is no equation: it must not be accepted
                Ok(x) if !wf => {
                    ensure!(*x != ConstrainResult::WillConstrain, "{what}: answered {x:?}, which is no equation");
                    seen.insert(4);
                }
                Ok(x) => {
                    let want = if full { ConstrainResult::WillOverConstrain } else if fresh.len() > 1 { ConstrainResult::WillNotConstrain } else { ConstrainResult::WillConstrain };
                    ensure!(*x == want, "{what}: answered {x:?}, expected {want:?}");
                    if *x == ConstrainResult::WillConstrain {
                        count += 1;
                        unknown.extend(fresh);
                    }
                    seen.insert(match x {
                        ConstrainResult::WillConstrain => 1,
                        ConstrainResult::WillNotConstrain => 2,
                        ConstrainResult::WillOverConstrain => 3,
                    });
                }
                Err(e) => {
                    ensure!(!wf, "{what}: refused: {e}");
                    seen.insert(4);
                }
            }
            state(&b, &unknown, count, &what)?;
        }
        if !c.rest.is_empty() {
            // what can be accepted does not depend on the order unless the system fills up
            let was_full = count == unknown.len();
            let mut all = unknown.clone();
            let mut n = count;
            let mut left: Vec<BTreeSet<String>> = c.rest.iter().map(|t| unknowns_of(t, &env)).collect();
            let mut fills = was_full;
            while !fills {
                let Some(i) = left.iter().position(|u| u.difference(&all).count() <= 1) else { break };
                let u = left.remove(i);
                all.extend(u);
                n += 1;
                fills = n == all.len();
            }
            let r = b.try_fully_constrain_with(c.rest.iter().map(|t| t.as_str()).collect());
            let what = format!("after offering {:?} to {count} equations in {unknown:?}", c.rest);
            match r {
                Err(e) => fail!("{what}: refused: {e}"),
                Ok(x) => {
                    ensure!(x == fills, "{what}: answered {x}, expected {fills}");
                    ensure!(b.is_fully_constrained() == fills, "{what}: fully constrained is {}", b.is_fully_constrained());
                    let got: BTreeSet<String> = b.get_vars().iter().cloned().collect();
                    ensure!(got.len() == b.get_vars().len(), "{what}: an unknown is listed twice: {:?}", b.get_vars());
                    ensure!(unknown.is_subset(&got), "{what}: unknowns are lost: {:?}", b.get_vars());
                    if was_full {
                        ensure!(got == unknown, "{what}: the unknowns become {got:?}");
                    } else if !fills {
                        ensure!(got == all, "{what}: the unknowns are {got:?}, expected {all:?}");
                    }
                    seen.insert(5);
                }
            }
        }
        let full = b.is_fully_constrained();
        ensure!(b.build_system().is_some() == full, "a builder that is {}fully constrained is {}built", if full { "" } else { "not " }, if full { "not " } else { "" });
        // the helper that lists unknowns
        let known = c.ctx.real();
        for t in std::iter::once(&c.first).chain(&c.rest) {
            if well_formed(t, &env) == Some(true) {
                let got: Vec<&str> = get_equation_unknowns(t, &known).collect();
                let mut want = unknowns_of(t, &env);
                want.retain(|u| !c.ctx.vars.iter().any(|(n, ..)| n == u));
                ensure!(got.len() == want.len() && got.iter().all(|g| want.contains(*g)), "the unknowns of {t:?} are {got:?}, expected {want:?}");
            }
        }
        ok(seen.len() >= 2, if full { vec!["full"] } else { vec![] })
    }
}

// ------------------------------------------------------------------ C14

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sys {
    pub consts: Vec<(String, F)>,
    pub unknowns: Vec<String>,
    /// sides and text
    pub eqs: Vec<(Ex, Ex, String)>,
    /// per unknown: guess and bounds, if specified
    pub spec: Vec<Option<(F, F, F)>>,
    pub solution: Vec<F>,
    pub must: bool,
    pub linear: bool,
    pub margin: F,
    pub limit: usize,
}

/// Equations with a planted solution; the first mentions every unknown, so that any order can be built up.
pub fn gen_sys(s: &mut Src, blanks: &[&str], max: usize) -> Sys {
    let n = 1 + s.size(3.min(max - 1), max - 1);
    let base = default_env();
    let nc = s.usize(0, 2);
    let mut unknowns = gen_names(s, n + nc, &base);
    let consts: Vec<(String, F)> = unknowns.split_off(n).into_iter().map(|x| (x, F(gen_value(s)))).collect();
    let known: Vec<(String, f64)> = consts.iter().map(|(n, v)| (n.clone(), v.0)).collect();
    let kind = s.weighted(&[6, 3, 2, 2]); // linear, near, wild, linear with large or small numbers
    let scale = if kind == 3 { 10f64.powi(if s.chance(1, 2) { s.int(1, 5) } else { s.int(-12, -1) } as i32) } else { 1.0 };
    let x: Vec<f64> = (0..n).map(|_| short(s.decimal(12, 1) * scale, 14)).collect();
    let sparse = s.chance(1, 2);
    let mut a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|_| if i > 0 && sparse && s.chance(1, 2) { 0.0 } else { s.decimal(6, 1) }).collect()).collect();
    let mut p: Vec<usize> = (0..n).collect();
    s.shuffle(&mut p);
    for (i, &j) in p.iter().enumerate() {
        if kind == 1 || s.chance(1, 2) {
            let t: f64 = a[i].iter().map(|v| v.abs()).sum();
            a[i][j] = short(t + 1.0, 1) * if s.chance(1, 2) { -1.0 } else { 1.0 };
        }
    }
    let mut eqs = vec![];
    for (i, r) in a.iter_mut().enumerate() {
        if i == 0 {
            r.iter_mut().for_each(|v| if *v == 0.0 { *v = 1.0 });
        }
        if r.iter().all(|v| *v == 0.0) {
            r[p[i]] = 1.0;
        }
        let coefs: Vec<(f64, &str)> = r.iter().zip(&unknowns).filter(|(v, _)| **v != 0.0).map(|(v, n)| (*v, n.as_str())).collect();
        let mut rhs: f64 = r.iter().zip(&x).map(|(a, x)| a * x).sum();
        let mut extra = vec![];
        if kind == 1 && s.chance(2, 3) {
            let (j, k) = (s.usize(0, n - 1), s.usize(0, n - 1));
            let (u, v) = (name(&unknowns[j]), name(&unknowns[k]));
            match s.below(3) {
                0 => {
                    extra.push(bin('*', num(0.3), call("sin", vec![u])));
                    rhs += 0.3 * x[j].sin();
                }
                1 => {
                    extra.push(bin('*', bin('*', num(0.01), u), v));
                    rhs += 0.01 * x[j] * x[k];
                }
                _ => {
                    extra.push(bin('/', bin('^', u, num(2.0)), num(100.0)));
                    rhs += x[j] * x[j] / 100.0;
                }
            }
        } else if kind == 2 {
            let (j, k) = (s.usize(0, n - 1), s.usize(0, n - 1));
            extra.push(bin('*', name(&unknowns[j]), name(&unknowns[k])));
            rhs += x[j] * x[k];
        }
        let (l, r) = equation(s, &coefs, extra, short(rhs, if kind == 3 { 15 } else { 8 }), if scale < 1.0 { &[] } else { &known });
        let text = format!("{} = {}", render(s, &l, blanks), render(s, &r, blanks));
        eqs.push((l, r, text));
    }
    let good = invert_dense(&a).is_some_and(|i| norm(&i) * norm(&a) < 1e3);
    let mut spec = vec![];
    for x in &x {
        let near = kind == 1;
        if !near && s.chance(1, 2) {
            spec.push(None);
            continue;
        }
        let g = if near { x + s.frac(-0.4, 0.4) } else { s.decimal(50, 1) };
        let (a, b) = (x.min(g) - s.frac(1.0, 30.0) * scale.max(1.0), x.max(g) + s.frac(1.0, 30.0) * scale.max(1.0));
        let (a, b) = match s.below(4) {
            0 => (f64::NEG_INFINITY, f64::INFINITY),
            1 => (a, f64::INFINITY),
            2 => (f64::NEG_INFINITY, b),
            _ => (a, b),
        };
        spec.push(Some((F(g), F(a), F(b))));
    }
    // the first equation stays first, the others come in any order
    let head = eqs.remove(0);
    s.shuffle(&mut eqs);
    eqs.insert(0, head);
    // near guesses stay within their bounds over the first steps only when the bounds are wide
    let margin = if scale > 1.0 { 1e-2 } else { *s.pick(&[1e-2, 1e-3, 1e-4, 1e-5]) * scale };
    Sys { consts, unknowns, eqs, spec, solution: fs(&x), must: good && kind != 2, linear: kind == 0 || kind == 3, margin: F(margin), limit: s.usize(25, 60) }
}

pub fn sys_env(c: &Sys) -> Env {
    let mut e = default_env();
    for (n, v) in &c.consts {
        e.insert(n.clone(), Meaning::Value(v.0));
    }
    e
}

pub fn sys_holds(c: &Sys, got: &HashMap<String, f64>, what: &str) -> Result<(), Failure> {
    ensure!(got.len() == c.unknowns.len() && c.unknowns.iter().all(|u| got.contains_key(u)), "{what}: the solution has the names {:?}, not {:?}", got.keys().collect::<Vec<_>>(), c.unknowns);
    let mut env = sys_env(c);
    for (k, v) in got {
        env.insert(k.clone(), Meaning::Value(*v));
    }
    for (l, r, t) in &c.eqs {
        if let Some((d, err)) = residual(l, r, &env) {
            ensure!(d <= c.margin.0 * (1.0 + 1e-6) + err + 1e-12 * c.margin.0.min(1.0), "{what}: the solution {got:?} misses {t:?} by {d:e} (margin {:e})", c.margin.0);
        }
    }
    for (u, sp) in c.unknowns.iter().zip(&c.spec) {
        if let Some((_, lo, hi)) = sp {
            ensure!(got[u] >= lo.0 && got[u] <= hi.0, "{what}: {u} = {:?} is outside [{:?}, {:?}]", got[u], lo.0, hi.0);
        }
    }
    // a linear system has only the planted solution, and the margin is a radius around it
    if c.linear && c.must && c.spec.iter().flatten().all(|(_, lo, hi)| lo.0 == f64::NEG_INFINITY && hi.0 == f64::INFINITY) {
        let d = c.unknowns.iter().zip(&c.solution).map(|(u, x)| (got[u] - x.0).powi(2)).sum::<f64>().sqrt();
        let far = c.solution.iter().fold(0.0, |m: f64, x| m.max(x.0.abs()));
        let m = c.margin.0;
        ensure!(d <= m * 1.001 + 1e-11 * far + if m >= 1e-5 { 1e-9 } else { 0.0 }, "{what}: the solution {got:?} is {d:e} away from {:?} (margin {m:e})", c.solution);
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C14Case {
    sys: Sys,
    /// how the equations are offered: one by one, or at once
    at_once: bool,
    stranger: String,
    /// given in the context instead of being specified
    in_ctx: bool,
    /// per unknown: an earlier specification that does not count
    before: Vec<Option<(F, F, F)>>,
}
pub struct C14;

impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "Systems of 1 to 7 equations with a planted solution: linear (dense and sparse, terms on either side, known names), linear with mild sine, product and square parts and guesses near the solution, and linear with arbitrary products; guesses and bounds specified for some unknowns or given in the context, some of them after others that they replace; a part of the linear systems has solutions as large as 1e6 or as small as 1e-12; orders, names and hash orders vary. Every solution is put into a reference evaluation of every equation, and those of unbounded linear systems are within the margin of the planted one. Well-conditioned planted systems have to be solved unless arbitrary products are in them. Non-trivial: at least two unknowns, solved.";
    const QUICK: u64 = 500_000;

    fn generate(s: &mut Src) -> C14Case {
        let k = s.tail(7, 14);
        let mut sys = gen_sys(s, BLANKS, k);
        if s.chance(1, 25) {
            sys.limit = s.usize(0, 2);
            sys.must = false;
        }
        if s.chance(1, 40) {
            sys.margin = F(*s.pick(&[0.0, -1.0]));
            sys.must = false;
        }
        // bounds that leave the solution out: an error, or nothing wrong
        if s.chance(1, 15) {
            if let Some(Some((g, lo, hi))) = sys.spec.first_mut() {
                let x = sys.solution[0].0;
                (*g, *lo, *hi) = (F(x + 6.0), F(x + 5.0), F(x + 9.0));
                sys.must = false;
            }
        }
        let mut env = sys_env(&sys);
        for u in &sys.unknowns {
            env.insert(u.clone(), Meaning::Value(0.0));
        }
        let before = sys
            .spec
            .iter()
            .map(|sp| {
                (sp.is_some() && s.chance(1, 4)).then(|| {
                    let g = s.decimal(200, 1);
                    let d = s.frac(0.0, 40.0);
                    match s.below(3) {
                        0 => (F(g), F(g), F(g + d)),
                        1 => (F(g), F(g - d), F(g)),
                        _ => (F(g + d), F(g), F(f64::INFINITY)),
                    }
                })
            })
            .collect();
        C14Case { sys, before, at_once: s.chance(1, 2), stranger: gen_names(s, 1, &env).pop().unwrap(), in_ctx: s.chance(1, 5) }
    }

    fn check(c: &C14Case) -> Checked {
        let y = &c.sys;
        let mut ctx = new_context();
        for (n, v) in &y.consts {
            ctx.add_const_to_ctx(n, v.0);
        }
        if c.in_ctx {
            for ((u, sp), be) in y.unknowns.iter().zip(&y.spec).zip(&c.before) {
                if let Some((g, lo, hi)) = be.as_ref().or(sp.as_ref()) {
                    ctx.add_var_with_domain_to_ctx(u, g.0, lo.0, hi.0);
                }
            }
        }
        let texts: Vec<&str> = y.eqs.iter().map(|e| e.2.as_str()).collect();
        let mut b = match SystemBuilder::new(texts[0], ctx) {
            Ok(b) => b,
            Err(e) => fail!("{:?} is refused: {e}", texts[0]),
        };
        if c.at_once {
            match b.try_fully_constrain_with(texts[1..].to_vec()) {
                Ok(true) => {}
                r => fail!("offering {texts:?}: {r:?}"),
            }
        } else {
            for t in &texts[1..] {
                match b.try_constrain_with(t) {
                    Ok(ConstrainResult::WillConstrain) => {}
                    r => fail!("offering {t:?} of {texts:?}: {r:?}"),
                }
            }
        }
        let Some(mut sys) = b.build_system() else { fail!("{texts:?} is not built") };
        for ((u, sp), be) in y.unknowns.iter().zip(&y.spec).zip(&c.before) {
            if let (Some((g, lo, hi)), false) = (be, c.in_ctx) {
                ensure!(sys.specify_variable(u, g.0, lo.0, hi.0), "the unknown {u} of {texts:?} cannot be specified");
            }
            if be.is_some() || !c.in_ctx {
                if let Some((g, lo, hi)) = sp {
                    ensure!(sys.specify_variable(u, g.0, lo.0, hi.0), "the unknown {u} of {texts:?} cannot be specified");
                }
            }
        }
        ensure!(!sys.specify_variable(&c.stranger, 1.0, 2.0, 3.0), "{} is no unknown of {texts:?} and can be specified", c.stranger);
        for (n, _) in &y.consts {
            ensure!(!sys.specify_variable(n, 1.0, 2.0, 3.0), "the constant {n} can be specified");
        }
        ensure!(!sys.specify_variable("sin", 1.0, 2.0, 3.0) && !sys.specify_variable("pi", 0.0, 0.0, 0.0), "a built-in name can be specified");
        match sys.solve(y.margin.0, y.limit) {
            Ok(got) => {
                ensure!(y.margin.0 > 0.0 && y.limit > 0, "{texts:?}: solved with margin {:?} and limit {}", y.margin.0, y.limit);
                sys_holds(y, &got, &format!("{texts:?}"))?;
                ok(y.unknowns.len() >= 2, vec![if y.must { "planted" } else { "solved" }])
            }
            Err(e) => {
                ensure!(!y.must, "{texts:?} with {:?} is not solved: {e}", y.spec);
                ok(false, vec!["not solved"])
            }
        }
    }
}

// ------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum FOp {
    NewCtx(bool),
    AddConst(usize, String, F),
    FreeCtx(usize),
    /// context, equation, guess, min, max, margin, limit
    Solve(usize, String, F, F, F, F, u32),
    NewBuilder(usize, String),
    Offer(usize, String),
    Full(usize),
    Build(usize),
    FreeBuilder(usize),
    Specify(usize, String, F, F, F),
    SolveSystem(usize, F, u32),
    FreeSystem(usize),
    /// runs a planted system from start to end in a context made for it
    Planted(Sys),
    /// an equation whose solution takes many iterations: text in x, guess, margin
    Slow(String, F, F),
    /// bytes that are no text
    Bytes(Vec<u8>),
}
/// An equation in x whose solution takes many iterations; a guess and a margin for it
pub fn gen_slow(s: &mut Src) -> (String, F, F) {
    let a = s.int(-9, 9);
    let p = *s.pick(&[3, 5, 7, 9]);
    let g = s.int(1, 9) as f64 * 10f64.powi(s.int(1, 6) as i32);
    (format!("(x - {}) ^ {p} = 0", if a < 0 { format!("({a})") } else { a.to_string() }), F(g), F(*s.pick(&[1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 3e-4])))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C15Case {
    ops: Vec<FOp>,
}
pub struct C15;

use geqslib::ffi;
use std::ffi::{c_char, c_void, CStr, CString};

struct Pools {
    ctx: Vec<(*mut c_void, ContextHashMap)>,
    builders: Vec<(*mut c_void, SystemBuilder)>,
    systems: Vec<(*mut c_void, geqslib::system::System)>,
}
impl Drop for Pools {
    fn drop(&mut self) {
        unsafe {
            for (p, _) in self.ctx.drain(..) {
                ffi::free_context_hash_map(p);
            }
            for (p, _) in self.builders.drain(..) {
                ffi::free_system_builder(p);
            }
            for (p, _) in self.systems.drain(..) {
                ffi::free_system(p);
            }
        }
    }
}

fn take_text(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let t = unsafe { CStr::from_ptr(p) }.to_str().expect("the solution is not UTF-8").to_string();
    unsafe { ffi::free_solution_string(p as *mut c_char) };
    Some(t)
}
pub fn read_pairs(t: &str) -> Result<HashMap<String, f64>, Failure> {
    let mut m = HashMap::new();
    for l in t.split('\n') {
        let Some((n, v)) = l.split_once('=') else { fail!("the solution {t:?} has the line {l:?}") };
        let Ok(x) = v.parse::<f64>() else { fail!("the solution {t:?} has the value {v:?}") };
        ensure!(m.insert(n.to_string(), x).is_none(), "the solution {t:?} names {n} twice");
    }
    Ok(m)
}
fn agree(a: &HashMap<String, f64>, b: &HashMap<String, f64>, tol: f64) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| close(*v, *w, tol, tol)))
}

fn c15(c: &C15Case) -> Result<usize, Failure> {
    let mut p = Pools { ctx: vec![], builders: vec![], systems: vec![] };
    let cs = |t: &str| CString::new(t.replace('\0', " ")).unwrap();
    let mut done = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k}");
        macro_rules! at {
            ($v:expr, $i:expr) => {{
                if $v.is_empty() {
                    continue;
                }
                $i % $v.len()
            }};
        }
        match op {
            FOp::NewCtx(default) => unsafe {
                let (q, m) = if *default { (ffi::new_default_context_hash_map(), new_context()) } else { (ffi::new_context_hash_map(), ContextHashMap::new()) };
                ensure!(!q.is_null(), "{what}: no context");
                p.ctx.push((q, m));
            },
            FOp::AddConst(i, n, v) => {
                let i = at!(p.ctx, *i);
                let t = cs(n);
                unsafe { ffi::add_const_to_ctx(p.ctx[i].0, t.as_ptr(), v.0) };
                p.ctx[i].1.add_const_to_ctx(n, v.0);
            }
            FOp::FreeCtx(i) => {
                let i = at!(p.ctx, *i);
                let (q, _) = p.ctx.swap_remove(i);
                unsafe { ffi::free_context_hash_map(q) };
            }
            FOp::Solve(i, t, g, lo, hi, m, limit) => {
                let i = at!(p.ctx, *i);
                let eq = cs(t);
                let copy = eq.clone();
                let got = take_text(ffi::solve_equation(eq.as_ptr(), p.ctx[i].0, g.0, lo.0, hi.0, m.0, *limit));
                ensure!(eq == copy, "{what}: the caller's text is changed");
                let want = refused(|| solve_equation_with_context(&eq.to_string_lossy(), &mut p.ctx[i].1.clone(), g.0, lo.0, hi.0, m.0, *limit as usize).ok()).unwrap_or(None);
                match (&got, &want) {
                    (None, None) => {}
                    (Some(t), Some((n, v))) => {
                        let m = read_pairs(t)?;
                        ensure!(m.len() == 1 && m.get(n).is_some_and(|x| close(*x, *v, 1e-9, 1e-280)), "{what}: solve_equation({:?}) gives {t:?}, the library {n} = {v:?}", eq);
                    }
                    _ => fail!("{what}: solve_equation({eq:?}) gives {got:?}, the library {want:?}"),
                }
                done += 1;
                // the caller's context is not changed
                let now = unsafe { &*(p.ctx[i].0 as *const ContextHashMap) };
                ensure!(same_ctx(now, &p.ctx[i].1), "{what}: solve_equation({eq:?}) changes the caller's context");
            }
            FOp::NewBuilder(i, t) => {
                let i = at!(p.ctx, *i);
                let eq = cs(t);
                let q = ffi::new_system_builder(eq.as_ptr(), p.ctx[i].0) as *mut c_void;
                let want = refused(|| SystemBuilder::new(&eq.to_string_lossy(), deep(&p.ctx[i].1)).ok()).unwrap_or(None);
                let now = unsafe { &*(p.ctx[i].0 as *const ContextHashMap) };
                ensure!(same_ctx(now, &p.ctx[i].1), "{what}: new_system_builder({eq:?}) changes the caller's context");
                match want {
                    Some(b) => {
                        ensure!(!q.is_null(), "{what}: new_system_builder({eq:?}) fails, the library succeeds");
                        p.builders.push((q, b));
                    }
                    None => ensure!(q.is_null(), "{what}: new_system_builder({eq:?}) succeeds, the library fails"),
                }
            }
            FOp::Offer(i, t) => {
                let i = at!(p.builders, *i);
                let eq = cs(t);
                let r = ffi::try_constrain_with(p.builders[i].0, eq.as_ptr());
                let b = &mut p.builders[i].1;
                let want = match refused(|| b.try_constrain_with(&eq.to_string_lossy())) {
                    Ok(Ok(ConstrainResult::WillConstrain)) => 1,
                    Ok(Ok(ConstrainResult::WillNotConstrain)) => 0,
                    Ok(Ok(ConstrainResult::WillOverConstrain)) => 2,
                    _ => -1,
                };
                ensure!(r == want, "{what}: try_constrain_with({eq:?}) gives {r}, the library {want}");
                done += 1;
            }
            FOp::Full(i) => {
                let i = at!(p.builders, *i);
                let r = ffi::is_fully_constrained(p.builders[i].0);
                let want = p.builders[i].1.is_fully_constrained() as i32;
                ensure!(r == want, "{what}: is_fully_constrained gives {r}, the library {want}");
            }
            FOp::Build(i) => {
                let i = at!(p.builders, *i);
                let (q, b) = p.builders.swap_remove(i);
                let y = ffi::build_system(q) as *mut c_void;
                match b.build_system() {
                    Some(sys) => {
                        ensure!(!y.is_null(), "{what}: build_system fails, the library succeeds");
                        p.systems.push((y, sys));
                    }
                    None => ensure!(y.is_null(), "{what}: build_system succeeds, the library fails"),
                }
            }
            FOp::FreeBuilder(i) => {
                let i = at!(p.builders, *i);
                let (q, _) = p.builders.swap_remove(i);
                unsafe { ffi::free_system_builder(q) };
            }
            FOp::Specify(i, n, g, lo, hi) => {
                let i = at!(p.systems, *i);
                let t = cs(n);
                let r = ffi::specify_variable(p.systems[i].0, t.as_ptr(), g.0, lo.0, hi.0);
                let want = if p.systems[i].1.specify_variable(n, g.0, lo.0, hi.0) { 1 } else { -1 };
                ensure!(r == want, "{what}: specify_variable({n:?}) gives {r}, the library {want}");
            }
            FOp::SolveSystem(i, m, limit) => {
                let i = at!(p.systems, *i);
                let (q, sys) = p.systems.swap_remove(i);
                let got = take_text(ffi::solve_system(q, m.0, *limit));
                let want = refused(|| sys.solve(m.0, *limit as usize).ok()).unwrap_or(None);
                // arbitrary systems: whether they converge may hang on the order of summation; values are judged by C14
                match (&got, &want) {
                    (Some(t), Some(w)) => {
                        let g = read_pairs(t)?;
                        ensure!(g.keys().all(|k| w.contains_key(k)) && g.len() == w.len(), "{what}: solve_system gives {t:?}, the library {w:?}");
                    }
                    (Some(t), None) => ensure!(m.0 > 0.0 && *limit > 0, "{what}: solve_system gives {t:?} with margin {:?} and limit {limit}", m.0),
                    _ => {}
                }
                done += 1;
            }
            FOp::Slow(t, g, m) => unsafe {
                let inf = f64::INFINITY;
                let x = cs("x");
                let t0 = cs(t);
                let one = |l: usize| solve_equation_with_context(t, &mut new_context(), g.0, -inf, inf, m.0, l).ok().map(|r| r.1);
                let many = |l: usize| {
                    let mut sys = SystemBuilder::new(t, new_context()).ok()?.build_system()?;
                    sys.specify_variable("x", g.0, -inf, inf);
                    sys.solve(m.0, l).ok().map(|r| r["x"])
                };
                for (single, lib) in [(true, &one as &dyn Fn(usize) -> Option<f64>), (false, &many)] {
                    let Some(least) = least_limit(2000, |l| lib(l).is_some()) else { continue };
                    for l in [least, least - 1, least + 1, 2000] {
                        let want = lib(l);
                        let ctx = ffi::new_default_context_hash_map();
                        let got = take_text(if single {
                            ffi::solve_equation(t0.as_ptr(), ctx, g.0, -inf, inf, m.0, l as u32)
                        } else {
                            let b = ffi::new_system_builder(t0.as_ptr(), ctx) as *mut c_void;
                            let q = ffi::build_system(b) as *mut c_void;
                            ffi::specify_variable(q, x.as_ptr(), g.0, -inf, inf);
                            ffi::solve_system(q, m.0, l as u32)
                        });
                        ffi::free_context_hash_map(ctx);
                        let value = match &got {
                            Some(t) => read_pairs(t)?.get("x").copied(),
                            None => None,
                        };
                        let same = match (value, want) {
                            (Some(a), Some(b)) => close(a, b, 1e-12, 1e-12),
                            (a, b) => a.is_none() && b.is_none(),
                        };
                        ensure!(same, "{what}: {t:?} from {:?} with margin {:?} and limit {l} gives {got:?}, the library {want:?}", g.0, m.0);
                    }
                }
                done += 1;
            },
            FOp::FreeSystem(i) => {
                let i = at!(p.systems, *i);
                let (q, _) = p.systems.swap_remove(i);
                unsafe { ffi::free_system(q) };
            }
            FOp::Planted(y) => {
                done += 1;
                unsafe {
                    let ctx = ffi::new_default_context_hash_map();
                    for (n, v) in &y.consts {
                        let t = cs(n);
                        ffi::add_const_to_ctx(ctx, t.as_ptr(), v.0);
                    }
                    let first = cs(&y.eqs[0].2);
                    let b = ffi::new_system_builder(first.as_ptr(), ctx) as *mut c_void;
                    ffi::free_context_hash_map(ctx); // the builder has its own copy
                    ensure!(!b.is_null(), "{what}: new_system_builder({first:?}) fails");
                    for (k, (_, _, t)) in y.eqs[1..].iter().enumerate() {
                        let full = ffi::is_fully_constrained(b);
                        ensure!(full == 0, "{what}: is_fully_constrained gives {full} after {} of {} equations", k + 1, y.eqs.len());
                        let t = cs(t);
                        let r = ffi::try_constrain_with(b, t.as_ptr());
                        ensure!(r == 1, "{what}: try_constrain_with({t:?}) gives {r}");
                    }
                    ensure!(ffi::is_fully_constrained(b) == 1, "{what}: a full system is not fully constrained");
                    let sys = ffi::build_system(b) as *mut c_void;
                    ensure!(!sys.is_null(), "{what}: a full system is not built");
                    for (u, sp) in y.unknowns.iter().zip(&y.spec) {
                        if let Some((g, lo, hi)) = sp {
                            let t = cs(u);
                            let r = ffi::specify_variable(sys, t.as_ptr(), g.0, lo.0, hi.0);
                            ensure!(r == 1, "{what}: specify_variable({u:?}) gives {r}");
                        }
                    }
                    let t = take_text(ffi::solve_system(sys, y.margin.0, y.limit as u32));
                    match t {
                        Some(t) => sys_holds(y, &read_pairs(&t)?, &what)?,
                        None => ensure!(!y.must, "{what}: {:?} is not solved", y.eqs.iter().map(|e| &e.2).collect::<Vec<_>>()),
                    }
                }
            }
            FOp::Bytes(b) => {
                let b: Vec<u8> = b.iter().copied().filter(|x| *x != 0).collect();
                let t = CString::new(b).unwrap();
                if let Some((ctx, _)) = p.ctx.first() {
                    let r = take_text(ffi::solve_equation(t.as_ptr(), *ctx, 1.0, -10.0, 10.0, 1e-3, 20));
                    if !t.to_bytes().contains(&b'=') {
                        ensure!(r.is_none(), "{what}: solve_equation({t:?}) gives {r:?}");
                    }
                    let q = ffi::new_system_builder(t.as_ptr(), *ctx) as *mut c_void;
                    if !q.is_null() {
                        unsafe { ffi::free_system_builder(q) };
                    }
                }
            }
        }
    }
    let _ = agree;
    Ok(done)
}

impl Prop for C15 {
    type Case = C15Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Histories of up to 25 calls of the C interface on pools of contexts, builders and systems, each call mirrored by the library call: solvable, unsolvable and malformed equations and systems, equations that need many iterations at the least limit that solves them and one below, planted systems run from start to end, texts that are not UTF-8; every object is released once. An allocator that detects double release and writes after release, and counts what is left at the end, watches. Non-trivial: at least two solving or constraining calls.";
    const QUICK: u64 = 375_000;
    const ASSUMPTIONS: &'static [&'static str] = &["null pointers and use after release by the caller are outside the contract"];

    fn generate(s: &mut Src) -> C15Case {
        const POOL: &[&str] = &["x", "y", "z", "alpha", "inf"];
        let pool: Vec<String> = POOL.iter().map(|t| t.to_string()).collect();
        let consts: Vec<String> = ["k", "pi", "g_1"].iter().map(|t| t.to_string()).collect();
        let mut ops = vec![FOp::NewCtx(true)];
        for _ in 0..s.usize(1, 24) {
            let i = s.usize(0, 5);
            let mut eq = |s: &mut Src| {
                let k = s.usize(1, 3);
                let t = gen_equation_over(s, &pool, &consts, k);
                if s.chance(1, 8) { mutate(s, &t) } else { t }
            };
            let op = match s.weighted(&[20, 30, 10, 60, 40, 60, 20, 40, 10, 20, 30, 10, 20, 10, 1]) {
                0 => FOp::NewCtx(s.chance(2, 3)),
                1 => FOp::AddConst(i, s.pick(&["k", "g_1", "y", "pi", "x"]).to_string(), F(gen_value(s))),
                2 => FOp::FreeCtx(i),
                3 => {
                    let t = if s.chance(1, 2) {
                        let (l, r) = equation(s, &[(2.0, "x")], vec![], 7.5, &[("k".to_string(), 2.0)]);
                        format!("{} = {}", render(s, &l, BLANKS), render(s, &r, BLANKS))
                    } else {
                        eq(s)
                    };
                    let g = s.decimal(5, 1);
                    let wide = s.chance(1, 2);
                    FOp::Solve(i, t, F(g), F(if wide { f64::NEG_INFINITY } else { g - 3.0 }), F(if wide { f64::INFINITY } else { g + 3.0 }), F(*s.pick(&[1e-3, 1e-5, 0.0])), s.usize(0, 40) as u32)
                }
                4 => FOp::NewBuilder(i, eq(s)),
                5 => FOp::Offer(i, eq(s)),
                6 => FOp::Full(i),
                7 => FOp::Build(i),
                8 => FOp::FreeBuilder(i),
                9 => FOp::Specify(i, s.pick(&["x", "y", "z", "k", "sin", "alpha", "nope"]).to_string(), F(s.decimal(5, 1)), F(-50.0), F(50.0)),
                10 => FOp::SolveSystem(i, F(*s.pick(&[1e-3, 1e-5, -1.0])), s.usize(0, 40) as u32),
                11 => FOp::FreeSystem(i),
                12 => FOp::Planted(gen_sys(s, BLANKS, 4)),
                14 => {
                    let (t, g, m) = gen_slow(s);
                    FOp::Slow(t, g, m)
                }
                _ => FOp::Bytes((0..s.usize(0, 12)).map(|_| if s.chance(1, 3) { s.below(256) as u8 } else { *s.pick(b"x=+1 ()y\xff\xc3") }).collect()),
            };
            ops.push(op);
        }
        C15Case { ops }
    }

    fn check(c: &C15Case) -> Checked {
        // once untracked, so that lazily made tables of the library are there
        c15(c)?;
        let (r, report) = alloc::tracked(|| c15(c));
        let done = r?;
        ensure!(report.double_free == 0, "{} blocks are released twice", report.double_free);
        ensure!(report.bad_layout == 0, "{} blocks are released with another size than they were made with", report.bad_layout);
        ensure!(report.write_after_free == 0, "{} blocks are written to after their release", report.write_after_free);
        ok(done >= 2, vec![])
    }
}
