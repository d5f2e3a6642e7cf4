//! C28: the procedure that is reported along with a solution.

use super::programs::*;
use super::scratch::*;
use super::tools::{gen_prog, Prog};
use crate::engine::*;
use crate::expr::*;
use crate::util::*;
use crate::{ensure, fail};
use geqslib::shunting::{new_context, ContextLike};
use nexsys::{basic_solve, ffi, solve_with_preprocessors};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::ffi::{CStr, CString};

struct Step {
    /// the unknown that is named, if it is one equation
    var: Option<String>,
    equations: Vec<String>,
}

/// Text between quotes with the usual escapes
fn unquote(t: &str) -> Option<String> {
    serde_json::from_str(t).ok()
}

fn steps(log: &str, what: &dyn std::fmt::Display) -> Result<Vec<Step>, Failure> {
    let mut out = vec![];
    let mut lines = log.lines();
    while let Some(l) = lines.next() {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        if let Some(v) = l.strip_prefix("Var:") {
            let Some(var) = unquote(v.trim()) else { fail!("{what}: the procedure {log:?} names the variable {v:?}") };
            let Some(e) = lines.next().and_then(|l| l.trim().strip_prefix("Equation:")) else { fail!("{what}: the procedure {log:?} gives no equation for {var}") };
            out.push(Step { var: Some(var), equations: vec![e.trim().to_string()] });
        } else if l == "[" {
            let mut equations = vec![];
            loop {
                let Some(l) = lines.next() else { fail!("{what}: the procedure {log:?} ends within a step") };
                let l = l.trim();
                if l == "]" {
                    break;
                }
                let Some(e) = unquote(l.trim_end_matches(',')) else { fail!("{what}: the procedure {log:?} has the line {l:?}") };
                equations.push(e.trim().to_string());
            }
            out.push(Step { var: None, equations });
        } else {
            fail!("{what}: the procedure {log:?} has the line {l:?}");
        }
    }
    Ok(out)
}

/// `log` leads from the names in `known` to the solution; `text` is given if the equations are used
/// as they stand in it. Returns the number of steps and of the equations in the largest.
fn leads(log: &str, known: &Env, got: &HashMap<String, f64>, text: Option<&str>, what: &dyn std::fmt::Display) -> Result<(usize, usize), Failure> {
    let all = steps(log, what)?;
    let mut left: Option<Vec<&str>> = text.map(|t| t.split('\n').filter(|l| l.contains('=')).map(|l| l.trim()).collect());
    let mut found: BTreeSet<String> = BTreeSet::new();
    let mut used: BTreeSet<&str> = BTreeSet::new();
    for (k, step) in all.iter().enumerate() {
        let mut new: BTreeSet<String> = BTreeSet::new();
        for e in &step.equations {
            ensure!(used.insert(e), "{what}: the procedure {log:?} uses the equation {e:?} twice");
            if let Some(left) = &mut left {
                let Some(i) = left.iter().position(|l| l == e) else { fail!("{what}: the procedure {log:?} uses {e:?}, no equation of the program") };
                left.remove(i);
            }
            ensure!(e.matches('=').count() == 1, "{what}: the procedure {log:?} uses {e:?} as an equation");
            for w in lex(&e.replace('=', " ")) {
                if w.starts_with(|c: char| c.is_ascii_alphabetic()) && !known.contains_key(&w) && !found.contains(&w) {
                    new.insert(w);
                }
            }
        }
        ensure!(new.len() == step.equations.len(), "{what}: step {k} of the procedure {log:?} finds {new:?} with {} equations", step.equations.len());
        if let Some(v) = &step.var {
            ensure!(new.contains(v), "{what}: step {k} of the procedure {log:?} finds {new:?}, not {v}");
        }
        found.append(&mut new);
    }
    let solved: BTreeSet<String> = got.keys().filter(|k| !known.contains_key(*k)).cloned().collect();
    ensure!(solved == found, "{what}: the procedure {log:?} finds {found:?}, the solution has {solved:?}");
    Ok((all.len(), all.iter().map(|s| s.equations.len()).max().unwrap_or(0)))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C28Case {
    /// equations alone
    Plain(Box<C16Case>),
    /// with declarations; by the C interface, by the command line (to a file)
    Full(Box<Prog>, F, usize, bool, Option<bool>),
}
pub struct C28;

impl Prop for C28 {
    type Case = C28Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "Planted programs of C16 (two orders, blank lines, equations within others, equations that nothing determines) through basic_solve, and those of C20 (declarations, conditional blocks) through solve_with_preprocessors, the C interface and the built nxc (to the terminal and to a file). The procedure is read back into steps and followed: every step has as many new unknowns as equations, a step of one equation names its unknown, no equation is used twice, each is one of the program, and the unknowns found are those of the solution. Non-trivial: a procedure of at least three steps, or one with a simultaneous step of at least two equations.";
    const QUICK: u64 = 150_000;
    const ASSUMPTIONS: &'static [&'static str] = &["equations of programs with declarations are followed in their compiled form and are not traced back to their lines", "programs that are not solved report no procedure"];

    fn generate(s: &mut Src) -> C28Case {
        if s.chance(1, 2) {
            return C28Case::Plain(Box::new(C16::generate(s)));
        }
        let p = gen_prog(s, 6);
        let m = *s.pick(&[1e-2, 1e-3, 1e-4, 1e-5, 1e-6]);
        let line = s.chance(1, 8).then(|| s.chance(1, 2));
        C28Case::Full(Box::new(p), F(m), s.usize(30, 80), s.chance(1, 2), line)
    }

    fn check(c: &C28Case) -> Checked {
        let (mut most, mut widest, mut n) = (0, 0, 0);
        let mut see = |r: (usize, usize)| {
            n += 1;
            most = most.max(r.0);
            widest = widest.max(r.1);
        };
        match c {
            C28Case::Plain(c) => {
                let mut known = default_env();
                for (n, v) in &c.consts {
                    known.insert(n.clone(), Meaning::Value(v.0));
                }
                for t in &c.texts {
                    let mut ctx = new_context();
                    for (n, v) in &c.consts {
                        ctx.add_const_to_ctx(n, v.0);
                    }
                    let what = format!("basic_solve({t:?}) with {:?}", c.consts);
                    if let Ok((log, got)) = basic_solve(t, &mut ctx, &mut declared_of(&c.p.spec), c.margin.0, c.limit) {
                        see(leads(&log.join("\n"), &known, &got, Some(t), &what)?);
                    }
                }
            }
            C28Case::Full(p, m, limit, by_c, line) => {
                let known = p.env();
                let what = format!("solve_with_preprocessors({:?})", p.full);
                if let Ok((log, got)) = solve_with_preprocessors(&p.full, m.0, *limit) {
                    see(leads(&log.join("\n"), &known, &got, None, &what)?);
                }
                if *by_c {
                    let t = CString::new(p.full.clone()).unwrap();
                    let q = unsafe { ffi::solve_with_preprocessors(t.as_ptr(), m.0, *limit as u32) };
                    if !q.is_null() {
                        let r = unsafe { CStr::from_ptr(q) }.to_string_lossy().into_owned();
                        unsafe { ffi::free_solution_string(q) };
                        let part = |from: &str, to: &str| -> Option<String> { unquote(r.split_once(from)?.1.rsplit_once(to)?.0.trim()) };
                        let (Some(log), Some(soln)) = (part("log:", ", \nsoln:"), part("\nsoln:", "}")) else { fail!("the C interface gives {r:?} for {:?}", p.full) };
                        let got = soln.split(',').filter_map(|e| e.split_once(':')).map(|(n, v)| (n.trim().to_string(), v.trim().parse().unwrap_or(f64::NAN))).collect();
                        see(leads(&log, &known, &got, None, &format!("by the C interface, {what}"))?);
                    }
                }
                if let Some(to_file) = line {
                    let dir = Scratch::new();
                    dir.fill(&[("p.nxs".to_string(), Some(p.full.clone().into_bytes()))].into());
                    let mut args = vec![dir.path("p.nxs"), "-tol".into(), m.0.to_string(), "-max".into(), limit.to_string()];
                    if *to_file {
                        args.push("-o".into());
                    }
                    let ran = dir.run("nxc", &args);
                    if ran.code == Some(0) {
                        let out = if *to_file { dir.seen().remove("p.txt").flatten().map_or(String::new(), |b| String::from_utf8_lossy(&b).into_owned()) } else { ran.out };
                        let Some((solution, procedure)) = out.split_once("Procedure:") else { fail!("nxc gives {out:?} for {:?}", p.full) };
                        let Some((_, solution)) = solution.split_once("Solution:") else { fail!("nxc gives {out:?} for {:?}", p.full) };
                        let log: Vec<&str> = procedure.lines().filter(|l| !l.starts_with('+')).collect();
                        let got = solution.lines().filter_map(|l| l.split_once(" = ")).map(|(n, v)| (n.trim().to_string(), v.trim().parse().unwrap_or(f64::NAN))).collect();
                        see(leads(&log.join("\n"), &known, &got, None, &format!("by nxc, {what}"))?);
                    }
                }
            }
        }
        ok(most >= 3 || widest >= 2, vec![if n == 0 { "not solved" } else if widest >= 2 { "simultaneous steps" } else { "single steps" }])
    }
}
