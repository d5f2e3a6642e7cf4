//! C20: the C interface and the command line of the program solver.

use super::expressions::{gen_value, mutate};
use super::programs::*;
use super::scratch::*;
use super::solving::gen_slow;
use crate::engine::*;
use crate::expr::*;
use crate::util::*;
use crate::{alloc, ensure, fail};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
use nexsys::{basic_solve, ffi, solve_with_preprocessors};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_void, CStr, CString};

/// What solving gives: the values by name, or no solution
type Solved = Option<HashMap<String, f64>>;

fn alike(a: &Solved, b: &Solved, tol: f64) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_float(*v, *w) || close(*v, *w, tol, tol))),
        _ => false,
    }
}
/// The library's answer may hang on the order inside hash tables: whether `got` is one it gives
fn one_of(got: &Solved, tol: f64, mut lib: impl FnMut() -> Solved) -> Result<(), Solved> {
    let mut last = None;
    for _ in 0..24 {
        last = lib();
        if alike(got, &last, tol) {
            return Ok(());
        }
    }
    Err(last)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Prog {
    consts: Vec<(String, F)>,
    p: Planted,
    /// equations alone
    basic: String,
    /// with declarations
    pub full: String,
}
pub fn gen_prog(s: &mut Src, largest: usize) -> Prog {
    let base = default_env();
    let n = 1 + s.size(3, largest);
    let nc = s.usize(0, 2);
    let nb = s.weighted(&[3, 1]);
    let mut names = program_names(s, n + nc + nb, &base);
    let target = names.split_off(n + nc);
    let consts: Vec<(String, F)> = names.split_off(n).into_iter().map(|n| (n, F(gen_value(s)))).collect();
    let known = Known { add: consts.iter().map(|(n, v)| (n.clone(), v.0)).collect(), mul: vec![], plain: false };
    let mut p = gen_planted(s, names, &known);
    let mut basic: Vec<String> = p.items.iter().map(|i| match i { Item::Eq(l, r) => eq_text(s, l, r), _ => unreachable!() }).collect();
    let mut chunks: Vec<Vec<String>> = basic.iter().map(|l| vec![l.clone()]).collect();
    s.shuffle(&mut basic);
    for t in target {
        // a conditional block, which only the full program has
        let exact: Vec<(String, f64)> = consts.iter().map(|(n, v)| (n.clone(), v.0)).collect();
        let mut c = Conds { exact: &exact, solved: &[], boundary: false };
        let i = gen_block(s, &mut c, 1, &mut |s| Item::Eq(name(&t), num(s.decimal(9, 1))));
        let mut out = vec![];
        block_lines(s, &i, 0, &mut 0, None, &mut out);
        chunks.push(out);
        p.items.push(i);
        p.vars.push(t.clone());
        basic.push(format!("{t} = 3"));
    }
    for (n, v) in &consts {
        chunks.push(vec![format!("const {n} = {}", v.0)]);
    }
    for (n, (g, b)) in &p.spec {
        if let Some(g) = g {
            chunks.push(vec![guess_line(s, n, g.0)]);
        }
        if let Some((a, b)) = b {
            chunks.push(vec![keep_line(s, n, a.0, b.0)]);
        }
    }
    s.shuffle(&mut chunks);
    let vars = p.vars.clone();
    let full = decorate(s, chunks.concat(), &vars);
    Prog { consts, p, basic: basic.join("\n"), full }
}
impl Prog {
    pub fn env(&self) -> Env {
        let mut e = default_env();
        for (n, v) in &self.consts {
            e.insert(n.clone(), Meaning::Value(v.0));
        }
        e
    }
    /// The full program's answer
    fn judge(&self, got: &HashMap<String, f64>, margin: f64, what: &dyn std::fmt::Display) -> Result<(), Failure> {
        holds(&self.p.items, &self.env(), &self.p.vars, &self.p.spec, got, margin, what)?;
        only_names(&self.env(), &self.p.vars, got, |_| 1e-15, what)
    }
}
/// Text of a program, its equations or a mutilated one
fn gen_text(s: &mut Src) -> Vec<u8> {
    let p = gen_prog(s, 4);
    let t = if s.chance(1, 2) { p.basic } else { p.full };
    let mut t = match s.below(4) {
        0 => mutate(s, &t),
        1 => {
            // one line less
            let mut l: Vec<&str> = t.split('\n').collect();
            let i = s.below(l.len() as u64) as usize;
            l.remove(i);
            l.join("\n")
        }
        _ => t,
    }
    .into_bytes();
    if s.chance(1, 10) {
        let i = s.usize(0, t.len());
        t.insert(i, *s.pick(&[0xff, 0xc3, 0x80, 0xe2]));
    }
    t.retain(|b| *b != 0);
    t
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum NOp {
    NewCtx(bool),
    AddConst(usize, String, F),
    FreeCtx(usize),
    NewDeclared,
    Declare(usize, String, F, F, F),
    FreeDeclared(usize),
    /// context, declared variables, text, margin, limit
    Basic(usize, usize, Vec<u8>, F, u32),
    Full(Vec<u8>, F, u32),
    /// an equation whose solution takes many iterations: text in x, guess, margin; by the command line too
    Slow(String, F, F, bool),
    /// by both ways
    Planted(Box<Prog>, F, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Line {
    p: Prog,
    /// what is done to the text of the program
    spoilt: Option<Vec<u8>>,
    file: String,
    args: Vec<String>,
    /// of the arguments, if they are good
    margin: F,
    limit: usize,
    to_file: bool,
    /// a bad argument
    bad: bool,
    /// the program's file does not exist, is a directory, or the output cannot be written
    missing: bool,
    directory: bool,
    blocked: bool,
    /// the program is called from its directory
    inside: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C20Case {
    Calls(Vec<NOp>),
    Line(Box<Line>),
    /// no arguments, or those that ask for help
    Help(Vec<String>),
}
pub struct C20;

struct Pools {
    ctx: Vec<*mut c_void>,
    declared: Vec<(*mut c_void, HashMap<String, [f64; 3]>)>,
}
impl Drop for Pools {
    fn drop(&mut self) {
        unsafe {
            for p in self.ctx.drain(..) {
                ffi::free_context_hash_map(p);
            }
            for (p, _) in self.declared.drain(..) {
                ffi::free_declared_hash_map(p);
            }
        }
    }
}
fn seen(p: *mut c_void) -> ContextHashMap {
    let c = unsafe { &*(p as *const ContextHashMap) };
    c.iter()
        .map(|(k, v)| {
            let v = match v {
                Token::Var(x) => Token::Var(std::rc::Rc::new(std::cell::RefCell::new(*x.borrow()))),
                t => t.clone(),
            };
            (k.clone(), v)
        })
        .collect()
}
fn numbers(c: &ContextHashMap) -> HashMap<String, f64> {
    c.iter()
        .filter_map(|(k, v)| match v {
            Token::Num(n) => Some((k.clone(), *n)),
            _ => None,
        })
        .collect()
}
/// Reads `{ log: "...", soln: "x: 1.0, y: 2.0, " }`
fn take(p: *mut c_char) -> Result<Solved, Failure> {
    if p.is_null() {
        return Ok(None);
    }
    let t = unsafe { CStr::from_ptr(p) }.to_str().map(|t| t.to_string());
    unsafe { ffi::free_solution_string(p) };
    let Ok(t) = t else { fail!("the solution is not UTF-8") };
    let Some((_, r)) = t.rsplit_once("soln: \"") else { fail!("the solution {t:?} has no part soln") };
    let Some((r, _)) = r.rsplit_once('"') else { fail!("the solution {t:?} does not end its part soln") };
    let mut m = HashMap::new();
    for w in r.split(',').map(|w| w.trim()).filter(|w| !w.is_empty()) {
        let Some((n, v)) = w.split_once(':') else { fail!("the solution {t:?} has the entry {w:?}") };
        let Ok(x) = v.trim().parse::<f64>() else { fail!("the solution {t:?} has the value {v:?}") };
        ensure!(m.insert(n.trim().to_string(), x).is_none(), "the solution {t:?} names {n} twice");
    }
    Ok(Some(m))
}

fn calls(ops: &[NOp]) -> Result<usize, Failure> {
    let mut p = Pools { ctx: vec![], declared: vec![] };
    let cs = |t: &str| CString::new(t.replace('\0', " ")).unwrap();
    let mut done = 0;
    for (k, op) in ops.iter().enumerate() {
        let what = format!("step {k}");
        macro_rules! at {
            ($v:expr, $i:expr) => {{
                if $v.is_empty() {
                    continue;
                }
                $i % $v.len()
            }};
        }
        match op {
            NOp::NewCtx(default) => {
                let q = unsafe { if *default { ffi::new_default_context_hash_map() } else { ffi::new_context_hash_map() } };
                ensure!(!q.is_null(), "{what}: no context");
                p.ctx.push(q);
            }
            NOp::AddConst(i, n, v) => {
                let i = at!(p.ctx, *i);
                let mut want = numbers(&seen(p.ctx[i]));
                want.insert(n.clone(), v.0);
                let t = cs(n);
                unsafe { ffi::add_const_to_ctx(p.ctx[i], t.as_ptr(), v.0) };
                ensure!(alike(&Some(numbers(&seen(p.ctx[i]))), &Some(want), 0.0), "{what}: add_const_to_ctx({n}, {:?}) does not add it", v.0);
            }
            NOp::FreeCtx(i) => {
                let i = at!(p.ctx, *i);
                let q = p.ctx.swap_remove(i);
                unsafe { ffi::free_context_hash_map(q) };
            }
            NOp::NewDeclared => {
                let q = ffi::new_declared_hash_map();
                ensure!(!q.is_null(), "{what}: no table of declared variables");
                p.declared.push((q, HashMap::new()));
            }
            NOp::Declare(i, n, g, lo, hi) => {
                let i = at!(p.declared, *i);
                let t = cs(n);
                let r = unsafe { ffi::add_declared_variable(p.declared[i].0, t.as_ptr(), g.0, lo.0, hi.0) };
                ensure!(r == 1, "{what}: add_declared_variable({n}) gives {r}");
                p.declared[i].1.insert(n.clone(), [g.0, lo.0, hi.0]);
                let now = unsafe { &*(p.declared[i].0 as *const HashMap<String, [f64; 3]>) };
                ensure!(*now == p.declared[i].1, "{what}: the declared variables are {now:?}, expected {:?}", p.declared[i].1);
            }
            NOp::FreeDeclared(i) => {
                let i = at!(p.declared, *i);
                let (q, _) = p.declared.swap_remove(i);
                unsafe { ffi::free_declared_hash_map(q) };
            }
            NOp::Basic(i, j, t, m, limit) => {
                let i = at!(p.ctx, *i);
                let j = at!(p.declared, *j);
                let before = seen(p.ctx[i]);
                let t = CString::new(t.clone()).unwrap();
                let copy = t.clone();
                let got = take(unsafe { ffi::basic_solve(t.as_ptr(), p.ctx[i], p.declared[j].0, m.0, *limit) })?;
                ensure!(t == copy, "{what}: the caller's text is changed");
                let text = t.to_string_lossy();
                let lib = || {
                    let (mut c, mut d) = (before.clone(), p.declared[j].1.clone());
                    refused(|| basic_solve(&text, &mut c, &mut d, m.0, *limit as usize).ok().map(|x| x.1)).unwrap_or(None)
                };
                if let Err(want) = one_of(&got, 1e-6 + 10.0 * m.0.abs(), lib) {
                    fail!("{what}: basic_solve({text:?}, …, {:?}, {limit}) with {:?} gives {got:?}, the library {want:?}", m.0, p.declared[j].1);
                }
                let now = seen(p.ctx[i]);
                for (n, v) in numbers(&before) {
                    ensure!(matches!(now.get(&n), Some(Token::Num(w)) if same_float(v, *w)), "{what}: basic_solve({text:?}) alters the known {n}");
                }
                let d = unsafe { &*(p.declared[j].0 as *const HashMap<String, [f64; 3]>) };
                ensure!(*d == p.declared[j].1, "{what}: basic_solve({text:?}) alters the declared variables");
                done += 1;
            }
            NOp::Full(t, m, limit) => {
                let t = CString::new(t.clone()).unwrap();
                let copy = t.clone();
                let got = take(unsafe { ffi::solve_with_preprocessors(t.as_ptr(), m.0, *limit) })?;
                ensure!(t == copy, "{what}: the caller's text is changed");
                let text = t.to_string_lossy();
                let lib = || refused(|| solve_with_preprocessors(&text, m.0, *limit as usize).ok().map(|x| x.1)).unwrap_or(None);
                if let Err(want) = one_of(&got, 1e-6 + 10.0 * m.0.abs(), lib) {
                    fail!("{what}: solve_with_preprocessors({text:?}, {:?}, {limit}) gives {got:?}, the library {want:?}", m.0);
                }
                done += 1;
            }
            NOp::Slow(t, g, m, line) => unsafe {
                let full = format!("guess {} for x\n{t}", g.0);
                let x = |r: anyhow::Result<(Vec<String>, HashMap<String, f64>)>| r.ok().and_then(|r| r.1.get("x").copied());
                let lib = |l: usize| x(solve_with_preprocessors(&full, m.0, l));
                let Some(least) = least_limit(2000, |l| lib(l).is_some()) else { continue };
                let (t0, full0, name) = (cs(t), cs(&full), cs("x"));
                for l in [least, least - 1, least + 1, 2000] {
                    let want = lib(l);
                    let mut got = vec![];
                    got.push(("solve_with_preprocessors", take(ffi::solve_with_preprocessors(full0.as_ptr(), m.0, l as u32))?));
                    let ctx = ffi::new_default_context_hash_map();
                    let declared = ffi::new_declared_hash_map();
                    ffi::add_declared_variable(declared, name.as_ptr(), g.0, f64::NEG_INFINITY, f64::INFINITY);
                    let r = take(ffi::basic_solve(t0.as_ptr(), ctx, declared, m.0, l as u32));
                    ffi::free_context_hash_map(ctx);
                    ffi::free_declared_hash_map(declared);
                    got.push(("basic_solve", r?));
                    if *line && l <= least {
                        let dir = Scratch::new();
                        dir.fill(&[("p.nxs".to_string(), Some(full.clone().into_bytes()))].into());
                        let ran = dir.run("nxc", &[dir.path("p.nxs"), "-tol".into(), m.0.to_string(), "-max".into(), l.to_string()]);
                        got.push(("nxc", if ran.code == Some(0) { Some(read_output(&ran.out)?) } else { None }));
                    }
                    for (way, got) in got {
                        let same = match (&got, want) {
                            (Some(r), Some(b)) => r.get("x").is_some_and(|a| close(*a, b, 1e-12, 1e-12)),
                            (a, b) => a.is_none() && b.is_none(),
                        };
                        ensure!(same, "{what}: {full:?} with margin {:?} and limit {l} by {way} gives {got:?}, by the library {want:?}", m.0);
                    }
                }
                done += 1;
            },
            NOp::Planted(g, m, limit) => unsafe {
                let t = cs(&g.full);
                match take(ffi::solve_with_preprocessors(t.as_ptr(), m.0, *limit))? {
                    Some(got) => g.judge(&got, m.0, &format!("{what}: solve_with_preprocessors({:?})", g.full))?,
                    None => ensure!(!g.p.must, "{what}: solve_with_preprocessors({:?}, {:?}, {limit}) fails", g.full, m.0),
                }
                // the equations alone; blocks are replaced by a plain value
                let ctx = ffi::new_default_context_hash_map();
                let declared = ffi::new_declared_hash_map();
                for (n, v) in &g.consts {
                    let t = cs(n);
                    ffi::add_const_to_ctx(ctx, t.as_ptr(), v.0);
                }
                for (n, v) in declared_of(&g.p.spec) {
                    let t = cs(&n);
                    ffi::add_declared_variable(declared, t.as_ptr(), v[0], v[1], v[2]);
                }
                let t = cs(&g.basic);
                let r = take(ffi::basic_solve(t.as_ptr(), ctx, declared, m.0, *limit));
                ffi::free_context_hash_map(ctx);
                ffi::free_declared_hash_map(declared);
                let items: Vec<Item> = g.p.items.iter().filter(|i| matches!(i, Item::Eq(..))).cloned().collect();
                let text = format!("{what}: basic_solve({:?})", g.basic);
                match r? {
                    Some(got) => {
                        holds(&items, &g.env(), &g.p.vars, &g.p.spec, &got, m.0, &text)?;
                        only_names(&g.env(), &g.p.vars, &got, |_| 0.0, &text)?;
                    }
                    None => ensure!(!g.p.must, "{text} fails"),
                }
                done += 2;
            },
        }
    }
    Ok(done)
}

fn read_output(t: &str) -> Result<HashMap<String, f64>, Failure> {
    let Some((_, r)) = t.split_once("Solution:") else { fail!("the output {t:?} has no solution") };
    let r = r.rsplit_once("Procedure:").map_or(r, |x| x.0);
    let mut m = HashMap::new();
    for l in r.lines() {
        let Some((n, v)) = l.split_once(" = ") else { continue };
        let Ok(x) = v.trim().parse::<f64>() else { fail!("the output {t:?} has the line {l:?}") };
        ensure!(m.insert(n.trim().to_string(), x).is_none(), "the output {t:?} names {n} twice");
    }
    Ok(m)
}

fn line(c: &Line) -> Checked {
    let dir = Scratch::new();
    let text = c.spoilt.clone().unwrap_or_else(|| c.p.full.clone().into_bytes());
    let out = format!("{}.txt", c.file.strip_suffix(".nxs").unwrap_or(&c.file));
    let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
    want.insert("other.txt".into(), Some(b"untouched".to_vec()));
    want.insert("prog.bak".into(), Some(b"untouched too".to_vec()));
    if c.directory {
        want.insert(c.file.clone(), None);
    } else if !c.missing {
        want.insert(c.file.clone(), Some(text.clone()));
    }
    if c.blocked {
        want.insert(out.clone(), None);
    } else if c.to_file && c.limit % 2 == 0 {
        // an older result is replaced
        want.insert(out.clone(), Some(vec![b'='; 100_000]));
    }
    dir.fill(&want);
    let before = dir.seen();
    let path = if c.inside { c.file.clone() } else { dir.path(&c.file) };
    let mut args = vec![path];
    args.extend(c.args.iter().cloned());
    let ran = dir.run("nxc", &args);
    let what = format!("nxc {} on {:?}", args[1..].join(" "), String::from_utf8_lossy(&text));
    let mut after = dir.seen();
    let Some(code) = ran.code else { fail!("{what}: ended by a signal: {}", ran.err) };
    ensure!(!ran.err.contains("panicked"), "{what}: {}", ran.err);
    ensure!(code == 0 || code == 1, "{what}: exit status {code}: {}", ran.err);
    let due = c.bad || c.missing || c.directory || std::str::from_utf8(&text).is_err() || c.blocked && c.to_file;
    if due {
        ensure!(code == 1, "{what}: exit status {code} where a failure is due");
    }
    if code == 1 {
        ensure!(format!("{}{}", ran.out, ran.err).to_lowercase().contains("err"), "{what}: a failure without a message: {:?}", ran.out);
        ensure!(after == before, "{what}: a failure that changes the files {:?} into {:?}", names_of(&before), names_of(&after));
        if !due {
            // the library fails as well
            match &c.spoilt {
                None => ensure!(!c.p.p.must, "{what}: fails: {}", ran.out),
                Some(t) => {
                    let t = String::from_utf8_lossy(t);
                    let lib = || refused(|| solve_with_preprocessors(&t, c.margin.0, c.limit).ok().map(|x| x.1)).unwrap_or(None);
                    ensure!(one_of(&None, 0.0, lib).is_ok(), "{what}: fails, the library gives {:?}: {}", solve_with_preprocessors(&t, c.margin.0, c.limit).map(|x| x.1), ran.out);
                }
            }
        }
        return ok(due, vec!["command line, failure"]);
    }
    let result = if c.to_file {
        let Some(Some(t)) = after.remove(&out) else { fail!("{what}: no file {out}: {:?}", names_of(&after)) };
        let mut rest = before.clone();
        rest.remove(&out);
        ensure!(after == rest, "{what}: the files {:?} are changed into {:?}", names_of(&before), names_of(&after));
        match String::from_utf8(t) {
            Ok(t) => t,
            Err(_) => fail!("{what}: the result is not UTF-8"),
        }
    } else {
        ensure!(after == before, "{what}: the files {:?} are changed into {:?}", names_of(&before), names_of(&after));
        ran.out.clone()
    };
    let got = read_output(&result)?;
    match &c.spoilt {
        None => c.p.judge(&got, c.margin.0, &what)?,
        Some(t) => {
            let t = String::from_utf8_lossy(t);
            let lib = || refused(|| solve_with_preprocessors(&t, c.margin.0, c.limit).ok().map(|x| x.1)).unwrap_or(None);
            if let Err(want) = one_of(&Some(got.clone()), 1e-6 + 10.0 * c.margin.0.abs(), lib) {
                fail!("{what}: gives {got:?}, the library {want:?}");
            }
        }
    }
    ok(true, vec!["command line, solved"])
}

impl Prop for C20 {
    type Case = C20Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Histories of up to 16 calls of the C interface on pools of contexts and tables of declared variables, mirrored by library calls: planted programs by both ways of solving, mutilated programs, programs with a line less, texts that are not UTF-8, equations that need many iterations, at the least limit that solves them and one below; every object released once, under an allocator that detects double release and writes after release. Runs of the built nxc in a scratch directory: planted and spoilt programs, every option in long and short form in random order, bad and missing option values, missing and unreadable files, results that cannot be written; exit status, output and every file of the directory are compared. Non-trivial: at least two solving calls, or a run that solves, or one that has to fail.";
    const QUICK: u64 = 60_000;
    const ASSUMPTIONS: &'static [&'static str] = &["null pointers and use after release by the caller are outside the contract", "where the library's answer hangs on hash order, any of its answers is accepted", "options given twice and unknown options are not judged"];

    fn fixed() -> Vec<C20Case> {
        vec![C20Case::Help(vec![]), C20Case::Help(vec!["help".into()]), C20Case::Help(vec!["-h".into()])]
    }

    fn generate(s: &mut Src) -> C20Case {
        if s.chance(1, 4) {
            let p = gen_prog(s, 5);
            let mut args: Vec<Vec<String>> = vec![];
            let mut margin = 0.0001;
            let mut limit = 100;
            let mut bad = false;
            if s.chance(2, 3) {
                let t = s.pick(&["0.001", "1e-5", "0.00001", ".001", "1E-3", "0.01"]).to_string();
                margin = t.parse().unwrap();
                args.push(vec![s.pick(&["--margin", "-tol"]).to_string(), t]);
            }
            if s.chance(2, 3) {
                limit = s.usize(30, 200);
                args.push(vec![s.pick(&["--max-iterations", "-max"]).to_string(), limit.to_string()]);
            }
            if s.chance(1, 4) {
                args.push(vec![s.pick(&["--verbose", "-v"]).to_string()]);
            }
            let to_file = s.chance(1, 2);
            if to_file {
                args.push(vec![s.pick(&["--output-file", "--to-file", "-o"]).to_string()]);
            }
            s.shuffle(&mut args);
            if s.chance(1, 8) {
                bad = true;
                args.retain(|a| a.len() == 1);
                let (o, v) = s.pick(&[("--margin", "much"), ("-tol", ""), ("-tol", "0,001"), ("--max-iterations", "-3"), ("-max", "2.5"), ("-max", "many"), ("--max-iterations", "")]);
                let at = s.usize(0, args.len());
                args.insert(at, vec![o.to_string(), v.to_string()]);
                if s.chance(1, 3) {
                    // the value is missing
                    let mut a = args.remove(at);
                    a.pop();
                    args.push(a);
                }
            }
            let spoilt = match s.below(5) {
                0 => Some(gen_text(s)),
                1 => Some(mutate(s, &p.full).into_bytes()),
                _ => None,
            };
            let odd = s.below(12);
            let file = s.pick(&["prog.nxs", "prog", "prog.txt", "my prog.nxs", "a.nxs.nxs", "prog.nxs.old", "prog.v2.nxs", ".nxs", "prög.nxs", "sub/prog.nxs", "-v.nxs", "nxs", "prog.NXS"]).to_string();
            return C20Case::Line(Box::new(Line { p, spoilt, file, args: args.concat(), margin: F(margin), limit, to_file, bad, missing: odd == 0, directory: odd == 1, blocked: odd == 2, inside: s.chance(1, 2) }));
        }
        let mut ops = vec![NOp::NewCtx(true), NOp::NewDeclared];
        for _ in 0..s.usize(1, 14) {
            let i = s.usize(0, 4);
            let m = F(*s.pick(&[1e-3, 1e-4, 1e-5, 1e-6]));
            let limit = s.usize(30, 80) as u32;
            let odd = |s: &mut Src, m: F, l: u32| match s.below(12) {
                0 => (F(0.0), l),
                1 => (F(-1.0), l),
                2 => (F(f64::NAN), l),
                3 => (m, 0),
                4 => (m, 1),
                _ => (m, l),
            };
            ops.push(match s.weighted(&[20, 30, 10, 20, 40, 10, 50, 40, 40, 1]) {
                0 => NOp::NewCtx(s.chance(2, 3)),
                1 => NOp::AddConst(i, s.pick(&["k", "g_1", "y", "x", "alpha"]).to_string(), F(gen_value(s))),
                2 => NOp::FreeCtx(i),
                3 => NOp::NewDeclared,
                4 => {
                    let g = s.decimal(20, 1);
                    let (lo, hi) = if s.chance(1, 2) { (f64::NEG_INFINITY, f64::INFINITY) } else { (g - 30.0, g + 30.0) };
                    NOp::Declare(i, s.pick(&["k", "g_1", "y", "x", "alpha", "z"]).to_string(), F(g), F(lo), F(hi))
                }
                5 => NOp::FreeDeclared(i),
                6 => {
                    let t = if s.chance(1, 2) {
                        let a = s.decimal(9, 1);
                        format!("x + {a} = y\n2*y = k*{a} + x\n{}", if s.chance(1, 2) { "alpha = sin(x)" } else { "z^3 + z = y" }).into_bytes()
                    } else {
                        gen_text(s)
                    };
                    let (m, l) = odd(s, m, limit);
                    NOp::Basic(i, s.usize(0, 3), t, m, l)
                }
                7 => {
                    let t = gen_text(s);
                    let (m, l) = odd(s, m, limit);
                    NOp::Full(t, m, l)
                }
                9 => {
                    let (t, g, m) = gen_slow(s);
                    NOp::Slow(t, g, m, s.chance(1, 3))
                }
                _ => NOp::Planted(Box::new(gen_prog(s, 5)), m, limit),
            });
        }
        C20Case::Calls(ops)
    }

    fn check(c: &C20Case) -> Checked {
        match c {
            C20Case::Calls(ops) => {
                let _ = new_context().add_const_to_ctx("warm", 1.0);
                calls(ops)?;
                let (r, report) = alloc::tracked(|| calls(ops));
                let done = r?;
                ensure!(report.double_free == 0, "{} blocks are released twice", report.double_free);
                ensure!(report.bad_layout == 0, "{} blocks are released with another size than they were made with", report.bad_layout);
                ensure!(report.write_after_free == 0, "{} blocks are written to after their release", report.write_after_free);
                ok(done >= 2, vec!["calls"])
            }
            C20Case::Line(l) => line(l),
            C20Case::Help(args) => {
                let dir = Scratch::new();
                let ran = dir.run("nxc", args);
                ensure!(ran.code == Some(0), "nxc {args:?}: exit status {:?}", ran.code);
                ensure!(ran.out.contains("USAGE"), "nxc {args:?} prints {:?}", ran.out);
                ensure!(dir.seen().is_empty(), "nxc {args:?} writes files");
                ok(true, vec!["help"])
            }
        }
    }
}
