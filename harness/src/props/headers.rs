//! C29: programs in C and C++ that use the headers. The driver in /verif/headers, built against the headers and the
//! libraries of the tree, runs histories of calls; the same calls of the Rust libraries tell what it has to answer.

use super::expressions::{gen_value, mutate};
use super::solving::{deep, gen_equation_over, gen_sys, read_pairs, sys_holds, Sys};
use crate::engine::*;
use crate::expr::*;
use crate::linear::*;
use crate::util::*;
use crate::{ensure, fail};
use geqslib::shunting::{new_context, ContextHashMap, ContextLike};
use geqslib::solve_equation_with_context;
use geqslib::system::{ConstrainResult, System, SystemBuilder};
use gmatlib::Matrix;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum HOp {
    New(u32, u32),
    Identity(u32),
    Copy(usize),
    Assign(usize, usize),
    Drop(usize),
    Set(usize, u32, u32, F),
    Fill(usize, Vec<F>),
    Show(usize),
    Square(usize),
    RowScale(usize, u32, F),
    Scale(usize, F),
    RowAdd(usize, u32, u32),
    ScaledRowAdd(usize, u32, u32, F),
    /// the second operand: one that fits, if there is one and this is so
    Multiply(usize, usize, bool),
    Augment(usize, usize, bool),
    Subset(usize, u32, u32, u32, u32),
    Trace(usize),
    Transpose(usize),
    Invert(usize),

    Context(bool),
    Constant(usize, String, F),
    DropContext(usize),
    Solve(usize, String, F, F, F, F, u32),
    Builder(usize, String),
    Offer(usize, String),
    Full(usize),
    Build(usize),
    DropBuilder(usize),
    Specify(usize, String, F, F, F),
    SolveSystem(usize, F, u32),
    DropSystem(usize),
    Planted(Box<Sys>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C29Case {
    /// the classes, or the functions of the plain C part
    cpp: bool,
    ops: Vec<HOp>,
}
pub struct C29;

// ------------------------------------------------------------------ the driver

struct Driver {
    _p: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
static FREE: Mutex<Vec<Driver>> = Mutex::new(vec![]);

fn start() -> Result<Driver, Failure> {
    use std::os::unix::process::CommandExt;
    let root = std::env::var("NGV_ROOT").unwrap_or_else(|_| "/verif".into());
    let exe = format!("{root}/target/driver");
    if !std::path::Path::new(&exe).exists() {
        let log = std::fs::read_to_string(format!("{root}/target/driver.log")).unwrap_or_default();
        let log: String = log.lines().filter(|l| l.contains("error") || l.contains("undefined")).take(8).collect::<Vec<_>>().join("\n");
        return Err(Failure { key: "compile".into(), msg: format!("a program that uses the headers does not compile:\n{log}") });
    }
    let mut c = Command::new(exe);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    c.env("ASAN_OPTIONS", "detect_leaks=0:hard_rss_limit_mb=1500:allocator_may_return_null=1").env("RUST_BACKTRACE", "0");
    unsafe {
        c.pre_exec(|| {
            // the checker of memory reserves addresses by the terabyte
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            r.rlim_cur = r.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &r);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("cannot start the driver");
    let (to, from) = (p.stdin.take().unwrap(), BufReader::new(p.stdout.take().unwrap()));
    Ok(Driver { _p: p, to, from })
}
impl Drop for Driver {
    fn drop(&mut self) {
        let _ = self._p.kill();
        let _ = self._p.wait();
    }
}

/// The answers, one for each line, and how many bytes stay allocated after another run
fn drive(cpp: bool, lines: &[String]) -> Result<(Vec<String>, i64), Failure> {
    let d = FREE.lock().unwrap().pop();
    let mut d = match d {
        Some(d) => d,
        None => start()?,
    };
    let mut t = String::from(if cpp { "cpp\n" } else { "c\n" });
    for l in lines {
        t.push_str(l);
        t.push('\n');
    }
    t.push_str("end\n");
    let mut got = vec![];
    let mut whole = d.to.write_all(t.as_bytes()).and_then(|_| d.to.flush()).is_ok();
    while whole {
        let mut l = String::new();
        if d.from.read_line(&mut l).unwrap_or(0) == 0 {
            whole = false;
            break;
        }
        let l = l.trim_end_matches('\n');
        if l == "." {
            break;
        }
        got.push(l.to_string());
    }
    if !whole {
        fail!("the program ends (crash or memory error) in a history of {} calls: {lines:?}", lines.len());
    }
    let Some(left) = got.pop().and_then(|l| l.strip_prefix("left ").and_then(|n| n.parse().ok())) else { fail!("the driver answers {got:?}") };
    ensure!(got.len() == lines.len(), "{} answers to {} calls: {got:?}", got.len(), lines.len());
    FREE.lock().unwrap().push(d);
    Ok((got, left))
}

fn hex(t: &str) -> String {
    let mut h = String::from("x");
    for b in t.bytes() {
        h.push_str(&format!("{b:02x}"));
    }
    h
}
fn unhex(h: &str) -> Option<String> {
    let h = h.strip_prefix('x')?;
    let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8(b?).ok()
}
/// As the streams of C++ write it
fn short_text(v: f64) -> String {
    let mut b = [0u8; 40];
    let n = unsafe { libc::snprintf(b.as_mut_ptr() as *mut libc::c_char, 40, c"%g".as_ptr(), v) };
    String::from_utf8(b[..n as usize].to_vec()).unwrap()
}

// ------------------------------------------------------------------ what it has to answer

enum Expect {
    Exactly(String),
    /// an exception, or the plain function's sign of failure; the exception's text names these
    Refused(&'static str, Vec<String>),
    /// any status but that of success
    NoInverse,
    Values(Vec<f64>),
    /// a solution of one equation: by the library with a slightly larger, the given, and a slightly smaller margin
    One([Option<(String, f64)>; 3]),
    /// of a system: the library's
    Many(Option<HashMap<String, f64>>, bool),
    Planted(Box<Sys>),
}
use Expect::*;

fn meets(e: &Expect, line: &str, got: &str, cpp: bool) -> Result<(), Failure> {
    let text = || -> Result<Option<String>, Failure> {
        if got == "null" {
            return Ok(None);
        }
        match got.strip_prefix("text ").and_then(unhex) {
            Some(t) => Ok(Some(t)),
            None => fail!("{line:?} is answered by {got:?}"),
        }
    };
    match e {
        Exactly(w) => ensure!(got == w, "{line:?} gives {got:?}, the library {w:?}"),
        Refused(_, names) if cpp => {
            let Some(m) = got.strip_prefix("throw ") else { fail!("{line:?} gives {got:?}, not an exception") };
            let Some(m) = unhex(m) else { fail!("{line:?} throws an exception whose text is not text") };
            ensure!(m.split_whitespace().count() >= 3 && m.chars().all(|c| c == '\n' || !c.is_control()), "{line:?} throws an exception with the text {m:?}");
            let words: Vec<&str> = m.split(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c))).map(|w| w.trim_end_matches('.')).collect();
            for n in names {
                ensure!(words.contains(&n.as_str()), "{line:?} throws an exception whose text {m:?} does not name {n}");
            }
        }
        Refused(w, _) => ensure!(got == *w, "{line:?} gives {got:?}, not {w:?}"),
        NoInverse => ensure!(got.starts_with("status ") && got != "status ok", "{line:?} gives {got:?}, the library an error"),
        Values(w) => {
            let v: Option<Vec<f64>> = got.strip_prefix("values").and_then(|t| t.split_whitespace().map(|x| x.parse().ok()).collect());
            let Some(v) = v else { fail!("{line:?} is answered by {got:?}") };
            ensure!(v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same_float(*a, *b)), "{line:?} gives {v:?}, the library {w:?}");
        }
        One(w) => {
            let g = match text()? {
                None => None,
                Some(t) => {
                    let m = read_pairs(&t)?;
                    ensure!(m.len() == 1, "{line:?} gives {t:?}");
                    m.into_iter().next()
                }
            };
            let same = w.iter().any(|w| match (&g, w) {
                (None, None) => true,
                (Some((a, x)), Some((b, y))) => a == b && close(*x, *y, 1e-9, 1e-280),
                _ => false,
            });
            ensure!(same, "{line:?} gives {g:?}, the library {:?}", w[1]);
        }
        Many(w, may) => {
            if let Some(t) = text()? {
                let g = read_pairs(&t)?;
                match w {
                    Some(w) => ensure!(g.len() == w.len() && g.keys().all(|k| w.contains_key(k)), "{line:?} gives {t:?}, the library {w:?}"),
                    None => ensure!(*may, "{line:?} gives {t:?}, the library nothing"),
                }
            }
        }
        Planted(y) => match text()? {
            Some(t) => sys_holds(y, &read_pairs(&t)?, &format!("{line:?}"))?,
            None => ensure!(!y.must, "{:?} is not solved", y.eqs.iter().map(|e| &e.2).collect::<Vec<_>>()),
        },
    }
    Ok(())
}

#[derive(Default)]
struct Mirror {
    cpp: bool,
    m: Vec<Matrix<f64>>,
    c: Vec<ContextHashMap>,
    b: Vec<SystemBuilder>,
    y: Vec<System>,
    calls: Vec<(String, Expect)>,
    /// calls that change or solve something
    done: usize,
    failed: usize,
}

impl Mirror {
    fn call(&mut self, line: String, e: Expect) {
        if matches!(e, Refused(..)) {
            self.failed += 1;
        }
        self.calls.push((line, e));
    }
    fn dump(&mut self, k: usize) {
        let a = &self.m[k];
        let (r, c) = (a.get_rows(), a.get_cols());
        let mut v: Vec<f64> = a.iter().copied().collect();
        v.extend([f64::MIN, f64::MIN]);
        self.call(format!("dump {k} {r} {c}"), Values(v));
    }
    fn is(ok: bool, other: Expect) -> Expect {
        if ok {
            Exactly("ok".into())
        } else {
            other
        }
    }
    fn changed(&mut self, line: String, k: usize, ok: bool, names: Vec<String>) {
        self.call(line, Self::is(ok, Refused("no", names)));
        self.dump(k);
        self.done += 1;
    }
    fn made(&mut self, line: String, got: Option<Matrix<f64>>, from: &[usize]) {
        self.made_or(line, got, from, vec![]);
    }
    fn made_or(&mut self, line: String, got: Option<Matrix<f64>>, from: &[usize], names: Vec<String>) {
        self.call(line, Self::is(got.is_some(), Refused("null", names)));
        if let Some(a) = got {
            self.m.push(a);
            self.dump(self.m.len() - 1);
        }
        for k in from {
            self.dump(*k);
        }
        self.done += 1;
    }

    fn run(&mut self, op: &HOp) {
        macro_rules! at {
            ($v:expr, $i:expr) => {{
                if $v.is_empty() {
                    return;
                }
                $i % $v.len()
            }};
        }
        match op {
            HOp::New(r, c) => {
                let got = refused(|| Matrix::new(*r as usize, *c as usize)).ok();
                self.made(format!("new {r} {c}"), got, &[]);
            }
            HOp::Identity(n) => {
                let got = Matrix::new_identity(*n as usize);
                self.made(format!("identity {n}"), Some(got), &[]);
            }
            HOp::Copy(i) => {
                let i = at!(self.m, i);
                let a = self.m[i].clone();
                self.made(format!("copy {i}"), Some(a), &[]);
            }
            HOp::Assign(i, j) => {
                let (i, j) = (at!(self.m, i), at!(self.m, j));
                self.m[i] = self.m[j].clone();
                self.call(format!("assign {i} {j}"), Exactly("ok".into()));
                self.dump(i);
                self.dump(j);
                self.done += 1;
            }
            HOp::Drop(i) => {
                let i = at!(self.m, i);
                self.m.swap_remove(i);
                self.call(format!("drop {i}"), Exactly("ok".into()));
            }
            HOp::Set(k, i, j, v) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let ok = refused(|| a[(*i as usize, *j as usize)] = v.0).is_ok();
                let e = Self::is(ok, Exactly("no".into()));
                self.call(format!("set {k} {i} {j} {:?}", v.0), e);
                self.dump(k);
                self.done += 1;
            }
            HOp::Fill(k, v) => {
                let k = at!(self.m, k);
                let (r, c) = (self.m[k].get_rows(), self.m[k].get_cols());
                if v.is_empty() {
                    return;
                }
                for i in 0..r {
                    for j in 0..c {
                        let x = v[(i * c + j) % v.len()].0;
                        self.m[k][(i, j)] = x;
                        self.call(format!("set {k} {i} {j} {x:?}"), Exactly("ok".into()));
                    }
                }
                self.dump(k);
            }
            HOp::Show(k) => {
                let k = at!(self.m, k);
                let a = &self.m[k];
                if !self.cpp || a.iter().any(|v| v.is_nan()) {
                    return;
                }
                let v: Vec<f64> = a.iter().copied().collect();
                let c = a.get_cols();
                let rows: Vec<String> = (0..a.get_rows()).map(|i| v[i * c..(i + 1) * c].iter().map(|x| short_text(*x)).collect::<Vec<_>>().join(",")).collect();
                self.call(format!("show {k}"), Exactly(format!("text {}", hex(&format!("[{}]", rows.join(";"))))));
            }
            HOp::Square(k) => {
                let k = at!(self.m, k);
                if self.cpp {
                    let w = if self.m[k].get_rows() == self.m[k].get_cols() { "yes" } else { "no" };
                    self.call(format!("square {k}"), Exactly(w.into()));
                }
            }
            HOp::RowScale(k, r, v) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let ok = refused(|| a.inplace_row_scale(*r as usize, v.0)).is_ok();
                self.changed(format!("row_scale {k} {r} {:?}", v.0), k, ok, vec![r.to_string()]);
            }
            HOp::Scale(k, v) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let ok = refused(|| a.inplace_scale(v.0)).is_ok();
                self.changed(format!("scale {k} {:?}", v.0), k, ok, vec![]);
            }
            HOp::RowAdd(k, i, j) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let ok = refused(|| a.inplace_row_add(*i as usize, *j as usize)).is_ok();
                self.changed(format!("row_add {k} {i} {j}"), k, ok, vec![i.to_string(), j.to_string()]);
            }
            HOp::ScaledRowAdd(k, i, j, v) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let ok = refused(|| a.inplace_scaled_row_add(*i as usize, *j as usize, v.0)).is_ok();
                self.changed(format!("scaled_row_add {k} {i} {j} {:?}", v.0), k, ok, vec![i.to_string(), j.to_string()]);
            }
            HOp::Multiply(i, j, fit) => {
                let i = at!(self.m, i);
                let n = self.m[i].get_cols();
                let j = self.other(*j, *fit, |b| b.get_rows() == n);
                let got = refused(|| self.m[i].multiply_matrix(&self.m[j]).ok()).unwrap_or(None);
                self.made(format!("multiply {i} {j}"), got, &[i, j]);
            }
            HOp::Augment(i, j, fit) => {
                let i = at!(self.m, i);
                let n = self.m[i].get_rows();
                let j = self.other(*j, *fit, |b| b.get_rows() == n);
                let got = refused(|| self.m[i].augment_with(&self.m[j]).ok()).unwrap_or(None);
                self.made(format!("augment {i} {j}"), got, &[i, j]);
            }
            HOp::Subset(k, r1, c1, r2, c2) => {
                let k = at!(self.m, k);
                let a = &self.m[k];
                let got = refused(|| a.subset(*r1 as usize, *c1 as usize, *r2 as usize, *c2 as usize)).ok();
                // the first index that is out of range is named
                let (r, c) = (a.get_rows() as u32, a.get_cols() as u32);
                let bad = [(*r1, r), (*r2, r), (*c1, c), (*c2, c)].into_iter().find(|(i, n)| i >= n);
                self.made_or(format!("subset {k} {r1} {c1} {r2} {c2}"), got, &[k], bad.map(|b| b.0.to_string()).into_iter().collect());
            }
            HOp::Trace(k) => {
                let k = at!(self.m, k);
                let a = &self.m[k];
                let t = refused(|| a.trace().unwrap_or(f64::NAN)).unwrap_or(f64::MIN);
                self.call(format!("trace {k}"), Values(vec![t]));
            }
            HOp::Transpose(k) => {
                let k = at!(self.m, k);
                let a = self.m[k].transpose();
                self.made(format!("transpose {k}"), Some(a), &[k]);
            }
            HOp::Invert(k) => {
                let k = at!(self.m, k);
                let a = &mut self.m[k];
                let status = match refused(|| a.try_inplace_invert()) {
                    Ok(Ok(())) => "ok",
                    Ok(Err(e)) => {
                        let t = e.to_string();
                        [("determinant", "DeterminantWasZero"), ("1 x 1", "SingularValueWasZero"), ("nxn", "ZeroDuringInversion"), ("same number", "UnknownGmatlibError")].iter().find(|w| t.contains(w.0)).map_or("", |w| w.1)
                    }
                    Err(_) => "",
                };
                // what the exception speaks of
                let word = [("DeterminantWasZero", "determinant"), ("SingularValueWasZero", "1"), ("ZeroDuringInversion", "division")].iter().find(|w| w.0 == status).map(|w| w.1.to_string());
                let e = match (self.cpp, status) {
                    (true, "ok") => Exactly("ok".into()),
                    (true, _) => Refused("", word.into_iter().collect()),
                    (_, "ok") => Exactly("status ok".into()),
                    (_, "") => NoInverse,
                    _ => Exactly(format!("status {status}")),
                };
                self.call(format!("invert {k}"), e);
                self.dump(k);
                self.done += 1;
            }

            HOp::Context(full) => {
                self.c.push(if *full { new_context() } else { ContextHashMap::new() });
                self.call(format!("context {}", *full as u8), Exactly("ok".into()));
            }
            HOp::Constant(k, n, v) => {
                let k = at!(self.c, k);
                self.c[k].add_const_to_ctx(n, v.0);
                self.call(format!("constant {k} {} {:?}", hex(n), v.0), Exactly("ok".into()));
            }
            HOp::DropContext(k) => {
                let k = at!(self.c, k);
                self.c.swap_remove(k);
                self.call(format!("drop_context {k}"), Exactly("ok".into()));
            }
            HOp::Solve(k, t, g, lo, hi, m, limit) => {
                let k = at!(self.c, k);
                if self.cpp {
                    return;
                }
                let c = &self.c[k];
                let lib = |m: f64| refused(|| solve_equation_with_context(t, &mut deep(c), g.0, lo.0, hi.0, m, *limit as usize).ok()).unwrap_or(None);
                let w = [1.0 + 1e-7, 1.0, 1.0 - 1e-7].map(|f| lib(m.0 * f));
                self.call(format!("solve {k} {} {:?} {:?} {:?} {:?} {limit}", hex(t), g.0, lo.0, hi.0, m.0), One(w));
                self.done += 1;
            }
            HOp::Builder(k, t) => {
                let k = at!(self.c, k);
                let got = refused(|| SystemBuilder::new(t, deep(&self.c[k])).ok()).unwrap_or(None);
                self.call(format!("builder {k} {}", hex(t)), Self::is(got.is_some(), Refused("null", vec![])));
                self.b.extend(got);
            }
            HOp::Offer(k, t) => {
                let k = at!(self.b, k);
                let b = &mut self.b[k];
                let e = match refused(|| b.try_constrain_with(t)) {
                    Ok(Ok(ConstrainResult::WillConstrain)) => Exactly("status 1".into()),
                    Ok(Ok(ConstrainResult::WillNotConstrain)) => Exactly("status 0".into()),
                    Ok(Ok(ConstrainResult::WillOverConstrain)) => Exactly("status 2".into()),
                    _ => Refused("status error", vec![]),
                };
                self.call(format!("offer {k} {}", hex(t)), e);
                self.done += 1;
            }
            HOp::Full(k) => {
                let k = at!(self.b, k);
                let w = self.b[k].is_fully_constrained() as u8;
                self.call(format!("full {k}"), Exactly(format!("status {w}")));
            }
            HOp::Build(k) => {
                let k = at!(self.b, k);
                let got = self.b.swap_remove(k).build_system();
                self.call(format!("build {k}"), Self::is(got.is_some(), Refused("null", vec![])));
                self.y.extend(got);
                self.done += 1;
            }
            HOp::DropBuilder(k) => {
                let k = at!(self.b, k);
                self.b.swap_remove(k);
                self.call(format!("drop_builder {k}"), Exactly("ok".into()));
            }
            HOp::Specify(k, n, g, lo, hi) => {
                let k = at!(self.y, k);
                let ok = self.y[k].specify_variable(n, g.0, lo.0, hi.0);
                self.call(format!("specify {k} {} {:?} {:?} {:?}", hex(n), g.0, lo.0, hi.0), Self::is(ok, Exactly("no".into())));
            }
            HOp::SolveSystem(k, m, limit) => {
                let k = at!(self.y, k);
                let sys = self.y.swap_remove(k);
                let w = refused(|| sys.solve(m.0, *limit as usize).ok()).unwrap_or(None);
                self.call(format!("solve_system {k} {:?} {limit}", m.0), Many(w, m.0 > 0.0 && *limit > 0));
                self.done += 1;
            }
            HOp::DropSystem(k) => {
                let k = at!(self.y, k);
                self.y.swap_remove(k);
                self.call(format!("drop_system {k}"), Exactly("ok".into()));
            }
            HOp::Planted(y) => {
                let ok = || Exactly("ok".to_string());
                let (c, b, n) = (self.c.len(), self.b.len(), self.y.len());
                self.call("context 1".into(), ok());
                for (n, v) in &y.consts {
                    self.call(format!("constant {c} {} {:?}", hex(n), v.0), ok());
                }
                self.call(format!("builder {c} {}", hex(&y.eqs[0].2)), ok());
                self.call(format!("drop_context {c}"), ok()); // the builder has its own copy
                for (_, _, t) in &y.eqs[1..] {
                    self.call(format!("full {b}"), Exactly("status 0".into()));
                    self.call(format!("offer {b} {}", hex(t)), Exactly("status 1".into()));
                }
                self.call(format!("full {b}"), Exactly("status 1".into()));
                self.call(format!("build {b}"), ok());
                for (u, sp) in y.unknowns.iter().zip(&y.spec) {
                    if let Some((g, lo, hi)) = sp {
                        self.call(format!("specify {n} {} {:?} {:?} {:?}", hex(u), g.0, lo.0, hi.0), ok());
                    }
                }
                self.call(format!("solve_system {n} {:?} {}", y.margin.0, y.limit), Planted(y.clone()));
                self.done += 2;
            }
        }
    }
    /// The `j`th of the matrices that fit, or the `j`th of all
    fn other(&self, j: usize, fit: bool, fits: impl Fn(&Matrix<f64>) -> bool) -> usize {
        let good: Vec<usize> = (0..self.m.len()).filter(|i| fits(&self.m[*i])).collect();
        if fit && !good.is_empty() {
            good[j % good.len()]
        } else {
            j % self.m.len()
        }
    }
}

impl Prop for C29 {
    type Case = C29Case;
    const ID: &'static str = "C29";
    const RULE: &'static str = "Histories of up to 30 calls in a program in C++ (the classes of the headers) or C (the functions), compiled against the tree's headers and libraries under AddressSanitizer: matrices made, copied, assigned, changed, combined, inverted, written and dropped, with every element and two out of range read back after each change; contexts, equations, builders and systems offered, built and solved, planted ones from start to end. Every call is answered as the Rust library answers it; failures are exceptions with a readable text (C++) or the documented value (C); nothing stays allocated. Non-trivial: at least three calls change or solve something.";
    const QUICK: u64 = 50_000;
    const ASSUMPTIONS: &'static [&'static str] = &["the libraries themselves are judged by C01 to C15", "arbitrary systems are compared by the names of their solution only, planted ones by their equations", "using an object after it was built, solved or released is outside the contract"];

    fn generate(s: &mut Src) -> C29Case {
        let cpp = s.chance(2, 3);
        let mut ops = vec![];
        let matrices = s.chance(2, 3);
        let dim = |s: &mut Src| s.size(3, 6) as u32;
        let row = |s: &mut Src| s.below(5) as u32;
        let value = |s: &mut Src| F(if s.chance(1, 2) { s.int(-9, 9) as f64 } else { gen_value(s) });
        if matrices {
            // a few matrices with elements, mostly of one size
            let n = 1 + s.below(4) as u32;
            for k in 0..s.usize(1, 3) {
                ops.push(if s.chance(3, 4) {
                    HOp::New(n, if s.chance(3, 4) { n } else { dim(s) })
                } else {
                    HOp::New(dim(s), dim(s))
                });
                ops.push(HOp::Fill(k, (0..s.usize(1, 16)).map(|_| value(s)).collect()));
            }
            for _ in 0..s.usize(1, 18) {
                let (i, j) = (s.usize(0, 5), s.usize(0, 5));
                ops.push(match s.weighted(&[4, 3, 6, 6, 4, 8, 2, 8, 4, 8, 6, 10, 10, 12, 10, 10, 5, 6, 10, 1]) {
                    0 => HOp::New(dim(s), dim(s)),
                    1 => HOp::Identity(dim(s)),
                    2 => HOp::Copy(i),
                    3 => HOp::Assign(i, j),
                    4 => HOp::Drop(i),
                    5 => HOp::Set(i, row(s), row(s), value(s)),
                    6 => HOp::Fill(i, (0..s.usize(1, 16)).map(|_| value(s)).collect()),
                    7 => HOp::Show(i),
                    8 => HOp::Square(i),
                    9 => HOp::RowScale(i, row(s), value(s)),
                    10 => HOp::Scale(i, value(s)),
                    11 => HOp::RowAdd(i, row(s), row(s)),
                    12 => HOp::ScaledRowAdd(i, row(s), row(s), value(s)),
                    13 => HOp::Multiply(i, j, s.chance(4, 5)),
                    14 => HOp::Augment(i, j, s.chance(4, 5)),
                    15 => {
                        let (a, b) = (row(s), row(s));
                        let (c, d) = if s.chance(7, 8) { (a + s.below(4) as u32, b + s.below(4) as u32) } else { (row(s), row(s)) };
                        HOp::Subset(i, a, b, c, d)
                    }
                    16 => HOp::Trace(i),
                    17 => HOp::Transpose(i),
                    18 => HOp::Invert(i),
                    _ => HOp::New(u32::MAX, u32::MAX),
                });
            }
        }
        if !matrices || s.chance(1, 5) {
            const POOL: &[&str] = &["x", "y", "z", "alpha", "inf"];
            let pool: Vec<String> = POOL.iter().map(|t| t.to_string()).collect();
            let consts: Vec<String> = ["k", "pi", "g_1"].iter().map(|t| t.to_string()).collect();
            ops.push(HOp::Context(true));
            for _ in 0..s.usize(1, 18) {
                let i = s.usize(0, 5);
                let eq = |s: &mut Src| {
                    let k = s.usize(1, 3);
                    let t = gen_equation_over(s, &pool, &consts, k);
                    let t = if s.chance(1, 8) { mutate(s, &t) } else { t };
                    t.replace('\0', " ")
                };
                ops.push(match s.weighted(&[3, 6, 2, 10, 8, 10, 4, 7, 2, 5, 6, 2, 3]) {
                    0 => HOp::Context(s.chance(2, 3)),
                    1 => HOp::Constant(i, s.pick(&["k", "g_1", "y", "pi", "x"]).to_string(), F(gen_value(s))),
                    2 => HOp::DropContext(i),
                    3 => {
                        let t = if s.chance(1, 2) {
                            let (l, r) = equation(s, &[(2.0, "x")], vec![], 7.5, &[("k".to_string(), 2.0)]);
                            format!("{} = {}", render(s, &l, BLANKS), render(s, &r, BLANKS))
                        } else {
                            eq(s)
                        };
                        let g = s.decimal(5, 1);
                        let wide = s.chance(1, 2);
                        HOp::Solve(i, t, F(g), F(if wide { f64::NEG_INFINITY } else { g - 3.0 }), F(if wide { f64::INFINITY } else { g + 3.0 }), F(*s.pick(&[1e-3, 1e-5])), s.usize(0, 40) as u32)
                    }
                    4 => HOp::Builder(i, eq(s)),
                    5 => HOp::Offer(i, eq(s)),
                    6 => HOp::Full(i),
                    7 => HOp::Build(i),
                    8 => HOp::DropBuilder(i),
                    9 => HOp::Specify(i, s.pick(&["x", "y", "z", "k", "sin", "alpha", "nope"]).to_string(), F(s.decimal(5, 1)), F(-50.0), F(50.0)),
                    10 => HOp::SolveSystem(i, F(*s.pick(&[1e-3, 1e-5, -1.0])), s.usize(0, 40) as u32),
                    11 => HOp::DropSystem(i),
                    _ => HOp::Planted(Box::new(gen_sys(s, BLANKS, 4))),
                });
            }
        }
        C29Case { cpp, ops }
    }

    fn check(c: &C29Case) -> Checked {
        let mut m = Mirror { cpp: c.cpp, ..Default::default() };
        for op in &c.ops {
            m.run(op);
        }
        for k in 0..m.m.len() {
            m.dump(k);
        }
        let lines: Vec<String> = m.calls.iter().map(|c| c.0.clone()).collect();
        let (got, left) = drive(c.cpp, &lines)?;
        for ((line, e), g) in m.calls.iter().zip(&got) {
            meets(e, line, g, c.cpp)?;
        }
        ensure!(left == 0, "{left} bytes stay allocated after {lines:?}");
        let mut labels = vec![if c.cpp { "C++" } else { "C" }];
        if m.failed > 0 {
            labels.push("failing call");
        }
        ok(m.done >= 3, labels)
    }
}
