//! C06 to C09: expressions, malformed text, compiled functions, variables.

use crate::engine::*;
use crate::expr::*;
use crate::util::*;
use crate::{ensure, fail};
use geqslib::shunting::{compile_to_fn, compile_to_fn_of_hashmap, eval_str, eval_str_with_context, new_context, ContextHashMap, ContextLike};
use geqslib::system::SystemBuilder;
use geqslib::variable::Variable;
use geqslib::{solve_equation_from_str, solve_equation_with_context};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

/// A context as data: the library's default one or an empty one, with additions.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ctx {
    pub default: bool,
    pub consts: Vec<(String, F)>,
    /// value and bounds
    pub vars: Vec<(String, F, F, F)>,
    /// index into CUSTOM
    pub funcs: Vec<(String, usize)>,
}
impl Ctx {
    pub fn real(&self) -> ContextHashMap {
        let mut c = if self.default { new_context() } else { ContextHashMap::new() };
        for (n, v) in &self.consts {
            c.add_const_to_ctx(n, v.0);
        }
        for (n, v, lo, hi) in &self.vars {
            if lo.0 == f64::NEG_INFINITY && hi.0 == f64::INFINITY {
                c.add_var_to_ctx(n, v.0);
            } else {
                c.add_var_with_domain_to_ctx(n, v.0, lo.0, hi.0);
            }
        }
        for (n, i) in &self.funcs {
            c.add_func_to_ctx(n, CUSTOM[*i].1, CUSTOM[*i].0);
        }
        c
    }
    pub fn env(&self) -> Env {
        let mut e = if self.default { default_env() } else { Env::new() };
        for (n, v) in &self.consts {
            e.insert(n.clone(), Meaning::Value(v.0));
        }
        for (n, v, ..) in &self.vars {
            e.insert(n.clone(), Meaning::Value(v.0));
        }
        for (n, i) in &self.funcs {
            e.insert(n.clone(), Meaning::Custom(*i));
        }
        e
    }
}

pub fn gen_value(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 2]) {
        0 => s.int(-9, 9) as f64,
        1 => s.decimal(20, 2),
        _ => s.decimal(1000, 3),
    }
}

fn gen_ctx(s: &mut Src, with_vars: bool) -> Ctx {
    let default = !s.chance(1, 6);
    let base = if default { default_env() } else { Env::new() };
    let nc = s.usize(0, 3);
    let nv = if with_vars { s.usize(0, 3) } else { 0 };
    let nf = s.usize(0, 2);
    let mut n = gen_names(s, nc + nv + nf, &base);
    let funcs: Vec<(String, usize)> = n.split_off(nc + nv).into_iter().map(|x| (x, s.usize(0, CUSTOM.len() - 1))).collect();
    let vars: Vec<(String, F, F, F)> = n
        .split_off(nc)
        .into_iter()
        .map(|x| {
            let v = gen_value(s);
            if s.chance(1, 2) {
                (x, F(v), F(f64::NEG_INFINITY), F(f64::INFINITY))
            } else {
                (x, F(v), F(v - s.decimal(5, 1).abs()), F(v + s.decimal(5, 1).abs()))
            }
        })
        .collect();
    let mut consts: Vec<(String, F)> = n.into_iter().map(|x| (x, F(gen_value(s)))).collect();
    // a caller may redefine a built-in constant
    if default && s.chance(1, 12) {
        consts.push((s.pick(&["e", "pi"]).to_string(), F(gen_value(s))));
    }
    Ctx { default, consts, vars, funcs }
}

// ------------------------------------------------------------------ C06

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C06Case {
    ctx: Ctx,
    ast: Option<Ex>,
    text: String,
}
pub struct C06;

fn judged(what: &str, text: &str, want: &Ev, got: anyhow::Result<f64>) -> Checked {
    match (want, got) {
        (Ev::Is(w), Ok(g)) => {
            ensure!((g - w.v).abs() <= w.err * 2.0, "{what}({text:?}) is {g:?}, conventionally {:?} (at most {:e} away)", w.v, w.err * 2.0);
        }
        (Ev::Is(w), Err(e)) => fail!("{what}({text:?}) is refused ({e}), conventionally {:?}", w.v),
        (Ev::DivZero, Ok(g)) => fail!("{what}({text:?}) divides by zero and gives {g:?}"),
        (Ev::Undefined, Ok(g)) => ensure!(g.is_nan(), "{what}({text:?}) has no value and gives {g:?}"),
        _ => {}
    }
    ok(false, vec![])
}

impl Prop for C06 {
    type Case = C06Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "An expression tree of depth up to 6 over literals in all formats, the default or an empty context with added constants, variables and functions (names that look like built-ins included), written with the fewest parentheses that conventional precedence needs plus redundant ones and random spacing, one in eight with literals and constants of extreme size (infinite constants, which may be compared, included), some with powers of huge exponents or inside up to 60 parentheses; its value is compared with a reference evaluation that carries error bounds, expressions without a real value have to give none, expressions whose value is too sensitive to rounding are set aside. Non-trivial: the reference value is clear, and the expression has at least two operators, a unary minus or a function.";
    const QUICK: u64 = 750_000;
    const ASSUMPTIONS: &'static [&'static str] = &["user functions receive their arguments last first, as the library's own do", "0^0, 0^negative, values beyond 1e280 or below 1e-280 and functions without parentheses are not judged"];

    fn fixed() -> Vec<C06Case> {
        let t = [
            "2^3^2", "-2^2", "2^-1", "2^-2^2", "2/3*4", "2-3-4", "2/-3*4", "2*-3+4", "-(-3)", "- - 3", "--3", "-sin(0)^2", "2^sin(0)", "sin(pi/2)^2", "sin(1)*2", "cos(0)+1", "log(2, 8)", "log(10,1000)-log10(1000)", "if(1,1,1,2,3)", "if(1,2,1,2,3)",
            "if(1,3,1,2,3)", "if(1,4,1,2,3)", "if(1,5,1,2,3)", "if(1,6,1,2,3)", "if(1,2,2,2,3)", "if(3,3,2,2,3)", "arcsin(1)", "arccos(1)", "arctan(1)", "sinh(1)", "cosh(1)", "tanh(1)", "ln(e)", "abs(-3)", "abs(3)", "tan(1)", "1/0", "1/(2-2)",
            "0/0", "0/5", "1e3", "2E3", ".5", "5.", "(((7)))", "\t1\n+\n2 ", "ln(-1)+if(1,1,1,2,3)", "3-2+1", "8/4/2", "8/4*2", "2*3^2", "-3*-2", "2--3", "2+-3", "2^0.5", "abs(1-2)*abs(3-5)", "ln(2)*ln(3)/ln(4)",
        ];
        t.iter().map(|t| C06Case { ctx: Ctx { default: true, consts: vec![], vars: vec![], funcs: vec![] }, ast: None, text: t.to_string() }).collect()
    }

    fn generate(s: &mut Src) -> C06Case {
        let mut ctx = gen_ctx(s, true);
        let mut depth = s.usize(1, 6);
        let extreme = s.chance(1, 8);
        if extreme {
            depth = depth.min(4);
            for (_, v) in &mut ctx.consts {
                v.0 = match s.below(5) {
                    0 => f64::INFINITY,
                    1 => f64::NEG_INFINITY,
                    2 => s.int(-9, 9) as f64 * 10f64.powi(s.int(10, 200) as i32),
                    3 => s.int(-9, 9) as f64 * 10f64.powi(s.int(-200, -10) as i32),
                    _ => v.0,
                };
            }
        }
        let mut ast = gen_expr(s, &ctx.env(), depth);
        if !extreme && s.chance(1, 50) {
            // a long one
            for _ in 0..s.usize(5, 60) {
                let e = gen_expr(s, &ctx.env(), 1);
                let op = *s.pick(&['+', '-', '+', '-', '*', '/']);
                ast = if s.chance(2, 3) { bin(op, ast, e) } else { bin(op, e, ast) };
                if s.chance(1, 8) {
                    ast = Ex::Neg(Box::new(ast));
                }
            }
        }
        if extreme {
            stretch(s, &mut ast);
            if ctx.default && !ctx.consts.is_empty() && s.chance(1, 2) {
                let mut side = |s: &mut Src| {
                    let n = name(&s.pick(&ctx.consts).0);
                    match s.below(4) {
                        0 => Ex::Neg(Box::new(n)),
                        1 => Ex::Num(gen_literal(s)),
                        _ => n,
                    }
                };
                let (a, b) = (side(s), side(s));
                let (yes, no) = (Ex::Num(gen_literal(s)), ast);
                let op = gen_choice(s);
                ast = call("if", if s.chance(1, 2) { vec![a, op, b, yes, no] } else { vec![a, op, b, no, yes] });
            }
        }
        if s.chance(1, 60) {
            ast = gen_huge_power(s);
            if s.chance(1, 2) {
                ast = bin(*s.pick(&['+', '-', '*']), ast, gen_expr(s, &ctx.env(), 1));
            }
        } else if s.chance(1, 100) {
            ast = bury(s, ast, ctx.default);
        }
        let text = render(s, &ast, BLANKS);
        C06Case { ctx, ast: Some(ast), text }
    }

    fn check(c: &C06Case) -> Checked {
        let env = c.ctx.env();
        let ast = match parse(&c.text, &env) {
            Parsed::Good(a) => a,
            other => panic!("the harness wrote {:?}, which it reads as {other:?}", c.text),
        };
        if let Some(a) = &c.ast {
            assert!(*a == ast, "the harness wrote {a:?} as {:?} and reads {ast:?}", c.text);
        }
        let want = eval(&ast, &env);
        let ctx = c.ctx.real();
        judged("eval_str_with_context", &c.text, &want, eval_str_with_context(&c.text, &ctx))?;
        // evaluating again gives the same, and the context is only read
        judged("eval_str_with_context", &c.text, &want, eval_str_with_context(&c.text, &ctx))?;
        if c.ctx.default && c.ctx.consts.is_empty() && c.ctx.vars.is_empty() && c.ctx.funcs.is_empty() {
            judged("eval_str", &c.text, &want, eval_str(&c.text))?;
        }
        let ops = !matches!(ast, Ex::Num(_) | Ex::Name(_)) && size(&ast) >= 3;
        let mut l = vec![match want {
            Ev::Is(_) => "value",
            Ev::DivZero => "division by zero",
            Ev::Undefined => "no value",
            Ev::Unclear => "set aside",
        }];
        if c.text.contains('^') {
            l.push("power")
        }
        if !c.ctx.funcs.is_empty() {
            l.push("own functions")
        }
        ok(ops && !matches!(want, Ev::Unclear), l)
    }
}

// ------------------------------------------------------------------ C07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C07Case {
    ctx: Ctx,
    text: String,
}
pub struct C07;

const SOUP: &[&str] = &[
    "1", "2.5", ".5", "3.", "1e2", "0", "x", "y", "pi", "e", "+", "-", "*", "/", "^", "(", ")", ",", "(", ")", "sin(", "log(", "if(", "abs(", "f(", "g(", "sin", "=", "==", " ", "\t", "\n", "e5", "2x", "1.2.3", "..", "_", "x_1", "$", "%", "é", "\u{0}", "π", "1e", "E", "[", "]", "{", "!", "<", ">", "&", "|", "'", "\"", "\\", "#", ":", ";", "?", "@", "~", "`", "inf", "nan", "−", "（", "0x10", "1_000", "💥", "--", "**", "()", "(1)", "+1", "-1", "1/0", "9e999",
];

pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..s.usize(1, 3) {
        let i = s.usize(0, c.len());
        match s.below(5) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => c.insert(i, c[i]),
            2 if i + 1 < c.len() => c.swap(i, i + 1),
            3 if i < c.len() => {
                // drop the rest
                c.truncate(i.max(1));
            }
            _ => {
                for (k, ch) in s.pick(SOUP).chars().enumerate() {
                    c.insert((i + k).min(c.len()), ch);
                }
            }
        }
    }
    c.into_iter().collect()
}

impl Prop for C07 {
    type Case = C07Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "Texts: well-formed expressions with one to three characters or tokens inserted, deleted, doubled, swapped or cut off; sequences of tokens and stray characters; very long and very deep ones; each read as an expression, as an equation (alone and with one or more equals signs) and as a system. An independent parser says whether the text is an expression. Non-trivial: the parser finds the text malformed, or it is well-formed and divides by zero.";
    const QUICK: u64 = 500_000;
    const ASSUMPTIONS: &'static [&'static str] = &["a function name without a parenthesis after it, a signed exponent and white space or letters outside ASCII are only checked for panics"];

    fn fixed() -> Vec<C07Case> {
        let ctx = Ctx { default: true, consts: vec![("c".into(), F(2.0))], vars: vec![("x".into(), F(1.5), F(-9.0), F(9.0))], funcs: vec![("f".into(), 2), ("g".into(), 0)] };
        let mut t: Vec<String> = [
            "", " ", "()", "(", ")", "1 2", "1 +", "+ 1", "* 1", "1 * / 2", "(1", "1)", "((1)", "1,2", ",", "(1,2)", "sin()", "sin(1,2)", "log(1)", "log(1,2,3)", "if(1,2,3,4)", "f(1)", "f(1,)", "f(,1)", "f(1,,2)", "g(1)", "g()", "2x", "x2", "x x",
            "2(3)", "(2)(3)", "(2)3", "x(3)", "c(3)", "sin(1)2", "2 sin(1)", "1..2", "unknown", "1 $ 2", "1 = 1", "=", "x = ", " = x", "x = 1 = 2", "x) + (3 = 4", "x == 3", "x = (1", "1 = 2", "pi = 3", "sin", "sin sin", "x + sin",
        ]
        .iter()
        .map(|t| t.to_string())
        .collect();
        t.push("(".repeat(20_000));
        t.push("(".repeat(5000) + "1" + &")".repeat(5000));
        t.push("-".repeat(20_000) + "1");
        t.push("1+".repeat(20_000) + "1");
        t.push("2^".repeat(3000) + "1");
        t.push("abs(".repeat(5000) + "1" + &")".repeat(5000));
        t.push("1".repeat(5000));
        t.push("x".repeat(5000));
        t.push("1,".repeat(5000));
        t.push(")".repeat(5000));
        t.into_iter().map(|text| C07Case { ctx: ctx.clone(), text }).collect()
    }

    fn generate(s: &mut Src) -> C07Case {
        let mut ctx = gen_ctx(s, true);
        if s.chance(1, 2) {
            ctx = Ctx { default: true, consts: vec![], vars: vec![("x".into(), F(1.5), F(-9.0), F(9.0)), ("y".into(), F(0.0), F(-9.0), F(9.0))], funcs: vec![("f".into(), 2), ("g".into(), 0)] };
        }
        let text = match s.weighted(&[5, 4, 3]) {
            0 => {
                let d = s.usize(1, 4);
                let e = gen_expr(s, &ctx.env(), d);
                let t = render(s, &e, BLANKS);
                mutate(s, &t)
            }
            1 => {
                let n = s.usize(0, 10);
                (0..n).map(|_| *s.pick(SOUP)).collect::<Vec<_>>().join(if s.chance(1, 2) { " " } else { "" })
            }
            _ => {
                // an equation, sometimes damaged
                let d = s.usize(0, 3);
                let e = gen_expr(s, &ctx.env(), d);
                let a = render(s, &e, BLANKS);
                let e = gen_expr(s, &ctx.env(), 2);
                let b = render(s, &e, BLANKS);
                let t = format!("{a} = {b}");
                if s.chance(2, 3) { mutate(s, &t) } else { t }
            }
        };
        C07Case { ctx, text }
    }

    fn check(c: &C07Case) -> Checked {
        let env = c.ctx.env();
        let ctx = c.ctx.real();
        let shown: String = c.text.chars().take(200).collect();
        // as an expression
        let p = parse(&c.text, &env);
        let got = refused(|| eval_str_with_context(&c.text, &ctx));
        let Ok(got) = got else { fail!("reading {shown:?} as an expression panics: {}", got.unwrap_err()) };
        let mut nontrivial = false;
        let label = match &p {
            Parsed::Bad(why) => {
                ensure!(got.is_err(), "{shown:?} is not an expression ({why}) and evaluates to {:?}", got.unwrap());
                nontrivial = true;
                "malformed"
            }
            Parsed::Good(a) => {
                if size(a) < 2000 {
                    let want = eval(a, &env);
                    nontrivial = matches!(want, Ev::DivZero);
                    judged("eval_str_with_context", &shown, &want, got)?;
                } else {
                    ensure!(got.is_ok(), "a long well-formed expression {shown:?} is refused: {}", got.unwrap_err());
                }
                "well-formed"
            }
            Parsed::Unspecified => "unspecified",
        };
        if let Err(m) = refused(|| eval_str(&c.text).is_ok()) {
            fail!("eval_str({shown:?}) panics: {m}");
        }
        // compiled
        let comp = refused(|| compile_to_fn_of_hashmap(&c.text, &ctx).and_then(|f| f(&HashMap::new())));
        match comp {
            Err(m) => fail!("compiling {shown:?} panics: {m}"),
            Ok(Ok(v)) => ensure!(!matches!(p, Parsed::Bad(_)), "{shown:?} is not an expression and compiles to a function with value {v:?}"),
            Ok(Err(_)) => {}
        }
        match refused(|| compile_to_fn(&c.text, &ctx).and_then(|f| f(1.0))) {
            Err(m) => fail!("compiling {shown:?} to a function of one variable panics: {m}"),
            Ok(Ok(v)) => ensure!(!matches!(p, Parsed::Bad(_)), "{shown:?} is not an expression and compiles to a function with value {v:?}"),
            Ok(Err(_)) => {}
        }
        // as an equation: unknown names are its unknowns
        let sides: Vec<&str> = c.text.split('=').collect();
        let bad = sides.len() != 2 || {
            let mut env2 = env.clone();
            let legal = |w: &str| w.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
            for w in c.text.split(|c: char| c.is_whitespace() || "()^*/+-,=".contains(c)) {
                if legal(w) && !env2.contains_key(w) {
                    env2.insert(w.to_string(), Meaning::Value(1.0));
                }
            }
            sides.iter().any(|t| matches!(parse(t, &env2), Parsed::Bad(_)))
        };
        let solved = refused(|| solve_equation_with_context(&c.text, &mut ctx.clone(), 1.0, -1e6, 1e6, 1e-4, 30));
        match solved {
            Err(m) => fail!("solving {shown:?} panics: {m}"),
            Ok(Ok(r)) => ensure!(!bad, "{shown:?} is not an equation and has the solution {r:?}"),
            Ok(Err(_)) => {}
        }
        match refused(|| solve_equation_from_str(&c.text, 1e-4, 30)) {
            Err(m) => fail!("solving {shown:?} panics: {m}"),
            Ok(Ok(r)) => ensure!(sides.len() == 2, "{shown:?} is not an equation and has the solution {r:?}"),
            Ok(Err(_)) => {}
        }
        // as a system: malformed text is refused when it is offered
        match refused(|| SystemBuilder::new(&c.text, ctx.clone()).map(|b| b.get_vars().len())) {
            Err(m) => fail!("building a system from {shown:?} panics: {m}"),
            Ok(Ok(_)) => ensure!(!bad, "{shown:?} is not an equation and starts a system"),
            Ok(Err(_)) => {}
        }
        let second = refused(|| {
            let mut b = SystemBuilder::new("q__1 + q__2 + q__3 = 4", ctx.clone()).ok()?;
            let before = b.get_vars().clone();
            let r = b.try_constrain_with(&c.text);
            Some((before, r.map_err(|e| e.to_string()), b.get_vars().clone()))
        });
        match second {
            Err(m) => fail!("offering {shown:?} to a system panics: {m}"),
            Ok(Some((before, r, after))) => {
                if bad {
                    // an equation with several new unknowns is turned away before it is read
                    ensure!(!matches!(r, Ok(geqslib::system::ConstrainResult::WillConstrain)), "{shown:?} is not an equation and a system accepts it");
                    ensure!(before == after, "offering {shown:?}, which is not an equation, changes the unknowns of a system");
                }
            }
            Ok(None) => {}
        }
        let mut l = vec![label];
        if bad && sides.len() == 2 {
            l.push("malformed equation");
        }
        if !bad {
            l.push("equation");
        }
        ok(nontrivial || bad && sides.len() == 2, l)
    }
}

// ------------------------------------------------------------------ C08

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C08Case {
    /// the context: constants and functions, then the variables with their domains
    ctx: Ctx,
    first: Ex,
    first_text: String,
    second: Ex,
    second_text: String,
    /// which function, and the inputs: index of the variable (or beyond: a name that is not in the context)
    calls: Vec<(u8, Vec<(usize, F)>)>,
    single: Vec<F>,
    stranger: String,
}
pub struct C08;

fn clamp(v: f64, lo: f64, hi: f64) -> f64 {
    if v > hi { hi } else if v < lo { lo } else { v }
}

impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "Two expressions over up to four variables with domains are compiled against one context and called in a random history with full or partial inputs, values outside the domains and names they do not use; each result is compared with the reference value of the expression after substitution. One expression is also compiled to a function of one variable. Refusals: names missing from the context; contexts without exactly one variable. Non-trivial: at least two calls have a clear expected value that depends on a variable.";
    const QUICK: u64 = 625_000;

    fn generate(s: &mut Src) -> C08Case {
        let mut ctx = gen_ctx(s, false);
        let k = s.tail(4, 15);
        let nv = s.usize(1, k);
        let base = ctx.env();
        let n = gen_names(s, nv, &base);
        for x in n {
            let v = gen_value(s);
            let (lo, hi) = match s.below(3) {
                0 => (f64::NEG_INFINITY, f64::INFINITY),
                1 => (v - s.decimal(8, 1).abs(), v + s.decimal(8, 1).abs()),
                _ => (v.min(0.0), f64::INFINITY),
            };
            ctx.vars.push((x, F(v), F(lo), F(hi)));
        }
        let env = ctx.env();
        let mut expr = |s: &mut Src| {
            let d = s.usize(1, 4);
            let mut e = gen_expr(s, &env, d);
            // make it depend on a variable more often than chance does
            if s.chance(1, 2) {
                let v = name(&s.pick(&ctx.vars).0);
                e = bin(*s.pick(&['+', '*', '-']), e, v);
            }
            let t = render(s, &e, BLANKS);
            (e, t)
        };
        let (first, first_text) = expr(s);
        let (second, second_text) = expr(s);
        let mut calls = vec![];
        let k = s.tail(8, 40);
        for _ in 0..s.usize(1, k) {
            let which = s.below(2) as u8;
            let mut inputs = vec![];
            for i in 0..nv {
                if s.chance(3, 4) {
                    inputs.push((i, F(gen_value(s))));
                }
            }
            if s.chance(1, 4) {
                inputs.push((99, F(gen_value(s))));
            }
            calls.push((which, inputs));
        }
        let single = (0..s.usize(1, 4)).map(|_| F(gen_value(s))).collect();
        let stranger = gen_names(s, 1, &env).pop().unwrap();
        C08Case { ctx, first, first_text, second, second_text, calls, single, stranger }
    }

    fn check(c: &C08Case) -> Checked {
        let ctx = c.ctx.real();
        let mut env = c.ctx.env();
        let f = match compile_to_fn_of_hashmap(&c.first_text, &ctx) {
            Ok(f) => f,
            Err(e) => fail!("{:?} does not compile: {e}", c.first_text),
        };
        let g = match compile_to_fn_of_hashmap(&c.second_text, &ctx) {
            Ok(f) => f,
            Err(e) => fail!("{:?} does not compile: {e}", c.second_text),
        };
        let mut clear = 0;
        let mut asides = false;
        for (k, (which, inputs)) in c.calls.iter().enumerate() {
            let mut m = HashMap::new();
            for &(i, v) in inputs {
                match c.ctx.vars.get(i) {
                    Some((n, _, lo, hi)) => {
                        m.insert(n.clone(), v.0);
                        env.insert(n.clone(), Meaning::Value(clamp(v.0, lo.0, hi.0)));
                    }
                    None => {
                        m.insert(c.stranger.clone(), v.0);
                        asides = true;
                    }
                }
            }
            let (ast, text, got) = if *which == 0 { (&c.first, &c.first_text, f(&m)) } else { (&c.second, &c.second_text, g(&m)) };
            let want = eval(ast, &env);
            judged(&format!("call {k} of "), text, &want, got)?;
            let mut used = vec![];
            names(ast, &mut used);
            if matches!(want, Ev::Is(_)) && c.ctx.vars.iter().any(|(n, ..)| used.contains(&n.as_str())) {
                clear += 1;
            }
        }
        // a function of one variable: the first variable stays, the others become constants
        let mut one = c.ctx.clone();
        let rest = one.vars.split_off(1);
        for (n, v, ..) in &rest {
            one.consts.push((n.clone(), *v));
        }
        let ctx1 = one.real();
        let h = match compile_to_fn(&c.first_text, &ctx1) {
            Ok(h) => h,
            Err(e) => fail!("{:?} does not compile to a function of one variable: {e}", c.first_text),
        };
        let (n, _, lo, hi) = &one.vars[0];
        for v in &c.single {
            let mut env = one.env();
            env.insert(n.clone(), Meaning::Value(clamp(v.0, lo.0, hi.0)));
            judged(&format!("function of {n} at {:?}: ", v.0), &c.first_text, &eval(&c.first, &env), h(v.0))?;
        }
        // refusals
        let odd = format!("{} + {}", c.first_text, c.stranger);
        ensure!(compile_to_fn_of_hashmap(&odd, &ctx).is_err(), "{odd:?} uses a name that is not in the context and compiles");
        ensure!(compile_to_fn(&odd, &ctx1).is_err(), "{odd:?} uses a name that is not in the context and compiles to a function of one variable");
        if !rest.is_empty() {
            ensure!(compile_to_fn(&c.first_text, &ctx).is_err(), "{:?} compiles to a function of one variable though the context has {}", c.first_text, c.ctx.vars.len());
        }
        let mut none = one.clone();
        none.vars.clear();
        none.consts.push((n.clone(), F(1.0)));
        ensure!(compile_to_fn(&c.first_text, &none.real()).is_err(), "{:?} compiles to a function of one variable though the context has none", c.first_text);
        ok(clear >= 2, if asides { vec!["unused input names"] } else { vec![] })
    }
}

// ------------------------------------------------------------------ C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum VOp {
    Set(F),
    Add(F),
    Sub(F),
    Mul(F),
    Div(F),
    SetInt(i32),
    AddInt(i32),
    SubSmall(u8),
    MulSingle(i16),
    DivInt(i32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C09Case {
    start: F,
    min: F,
    max: F,
    ops: Vec<VOp>,
}
pub struct C09;

fn gen_float(s: &mut Src) -> f64 {
    match s.weighted(&[5, 4, 2, 1, 1, 1]) {
        0 => s.int(-12, 12) as f64,
        1 => s.decimal(30, 2),
        2 => s.decimal(1, 3),
        3 => *s.pick(&[1e300, -1e300, 1e-300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324]),
        4 => *s.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0]),
        _ => f64::from_bits(s.bits()),
    }
}

impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A variable with finite, half-infinite or infinite bounds (equal ones included) and a history of up to 20 assignments and arithmetic updates of several number types, special floating-point values included; after each step value and bounds are compared with a clamping model. Non-trivial: at least one step is held at a bound and one is not.";
    const QUICK: u64 = 750_000;
    const ASSUMPTIONS: &'static [&'static str] = &["steps whose exact result is not a number are left out"];

    fn generate(s: &mut Src) -> C09Case {
        let mut f = |s: &mut Src| loop {
            let v = gen_float(s);
            if !v.is_nan() {
                return v;
            }
            // a recorded choice of NaN must not loop for ever
            if s.log.len() > 5000 {
                return 0.0;
            }
        };
        let (a, b) = (f(s), f(s));
        let (mut min, mut max) = match s.below(5) {
            0 => (f64::NEG_INFINITY, f64::INFINITY),
            1 => (a, f64::INFINITY),
            2 => (f64::NEG_INFINITY, a),
            _ => (a.min(b), a.max(b)),
        };
        if min == f64::INFINITY || max == f64::NEG_INFINITY {
            (min, max) = (-1.0, 1.0);
        }
        let start = clamp(f(s), min, max);
        let k = s.tail(20, 200);
        let ops = (0..s.usize(1, k))
            .map(|_| match s.below(10) {
                0 => VOp::Set(F(f(s))),
                1 => VOp::Add(F(f(s))),
                2 => VOp::Sub(F(f(s))),
                3 => VOp::Mul(F(f(s))),
                4 => VOp::Div(F(f(s))),
                5 => VOp::SetInt(s.int(-1000, 1000) as i32),
                6 => VOp::AddInt(s.int(-50, 50) as i32),
                7 => VOp::SubSmall(s.int(0, 255) as u8),
                8 => VOp::MulSingle(s.int(-20, 20) as i16),
                _ => VOp::DivInt(s.int(-20, 20) as i32),
            })
            .collect();
        C09Case { start: F(start), min: F(min), max: F(max), ops }
    }

    fn check(c: &C09Case) -> Checked {
        let (lo, hi) = (c.min.0, c.max.0);
        let mut v = Variable::new(c.start.0, lo, hi);
        let mut m = c.start.0;
        let (mut held, mut free) = (false, false);
        for (k, op) in c.ops.iter().enumerate() {
            let exact = match op {
                VOp::Set(x) => x.0,
                VOp::Add(x) => m + x.0,
                VOp::Sub(x) => m - x.0,
                VOp::Mul(x) => m * x.0,
                VOp::Div(x) => m / x.0,
                VOp::SetInt(x) => *x as f64,
                VOp::AddInt(x) => m + *x as f64,
                VOp::SubSmall(x) => m - *x as f64,
                VOp::MulSingle(x) => m * (*x as f64 * 0.25),
                VOp::DivInt(x) => m / *x as f64,
            };
            if exact.is_nan() {
                continue;
            }
            match op {
                VOp::Set(x) => v.set(x.0),
                VOp::Add(x) => v += x.0,
                VOp::Sub(x) => v -= x.0,
                VOp::Mul(x) => v *= x.0,
                VOp::Div(x) => v /= x.0,
                VOp::SetInt(x) => v.set(*x),
                VOp::AddInt(x) => v += *x,
                VOp::SubSmall(x) => v -= *x,
                VOp::MulSingle(x) => v *= *x as f32 * 0.25,
                VOp::DivInt(x) => v /= *x,
            }
            let want = clamp(exact, lo, hi);
            if want == exact {
                free = true
            } else {
                held = true
            }
            let got = f64::from(v);
            ensure!(got == want, "step {k} ({op:?}) on {m:?} in [{lo:?}, {hi:?}] gives {got:?}, expected {want:?}");
            ensure!(v.min == lo && v.max == hi, "step {k} ({op:?}) changes the bounds to [{:?}, {:?}]", v.min, v.max);
            m = want;
        }
        ok(held && free, vec![])
    }
}
