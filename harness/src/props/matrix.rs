//! C01 to C05: matrices against a plain table of rows.

use crate::engine::*;
use crate::util::*;
use crate::{alloc, ensure, fail};
use gmatlib::{col_vec, row_vec, Element, Matrix};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ element types

pub trait El: Element<Self> + Send + std::panic::RefUnwindSafe + 'static {
    fn of(v: i64) -> Self;
    const NAME: &'static str;
}
macro_rules! el {
    ($t:ty, $s:literal) => {
        impl El for $t {
            fn of(v: i64) -> $t {
                v as $t
            }
            const NAME: &'static str = $s;
        }
    };
}
el!(i32, "i32");
el!(i8, "i8");
el!(i16, "i16");
el!(i64, "i64");
// floats hold halves, so that they are no integers and still exact
impl El for f32 {
    fn of(v: i64) -> f32 {
        v as f32 * 0.5
    }
    const NAME: &'static str = "f32";
}
impl El for f64 {
    fn of(v: i64) -> f64 {
        v as f64 * 0.5
    }
    const NAME: &'static str = "f64";
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    I32,
    F64,
    I8,
    I16,
    I64,
    F32,
}
const TYPES: [Ty; 6] = [Ty::I32, Ty::F64, Ty::I8, Ty::I16, Ty::I64, Ty::F32];

macro_rules! with_type {
    ($ty:expr, $f:ident, $($a:expr),*) => {
        match $ty {
            Ty::I32 => $f::<i32>($($a),*),
            Ty::F64 => $f::<f64>($($a),*),
            Ty::I8 => $f::<i8>($($a),*),
            Ty::I16 => $f::<i16>($($a),*),
            Ty::I64 => $f::<i64>($($a),*),
            Ty::F32 => $f::<f32>($($a),*),
        }
    };
}

/// Largest magnitude used for elements that are only stored
fn store_limit(t: Ty) -> i64 {
    match t {
        Ty::I8 => 127,
        Ty::I16 => 32767,
        Ty::F32 => 1 << 20,
        _ => 1 << 30,
    }
}
/// Largest magnitude so that products of up to 8 terms and short sums stay exact
fn product_limit(t: Ty) -> i64 {
    match t {
        Ty::I8 => 3,
        Ty::I16 => 60,
        Ty::F32 => 200,
        Ty::I32 => 10_000,
        _ => 1_000_000,
    }
}

// ------------------------------------------------------------------ the table

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Table {
    pub rows: usize,
    pub cols: usize,
    pub v: Vec<i64>,
}
impl Table {
    fn at(&self, i: usize, j: usize) -> i64 {
        self.v[i * self.cols + j]
    }
    fn of_fn(rows: usize, cols: usize, f: impl Fn(usize, usize) -> i64) -> Table {
        let mut v = vec![];
        for i in 0..rows {
            for j in 0..cols {
                v.push(f(i, j));
            }
        }
        Table { rows, cols, v }
    }
    fn build<T: El>(&self) -> Result<Matrix<T>, Failure> {
        let v: Vec<T> = self.v.iter().map(|&x| T::of(x)).collect();
        if self.cols == 0 || self.rows == 0 {
            // only construction by size keeps such dimensions
            return Ok(Matrix::new(self.rows, self.cols));
        }
        Matrix::from_vec(self.cols, v).map_err(|e| Failure::from(format!("from_vec refused {} elements in {} columns: {e}", self.v.len(), self.cols)))
    }
}

/// Everything that can be read from the matrix agrees with the table
fn agrees<T: El>(m: &Matrix<T>, t: &Table, what: &str) -> Result<(), Failure> {
    ensure!(m.get_rows() == t.rows && m.get_cols() == t.cols, "{what}: {} matrix is {}x{}, expected {}x{}", T::NAME, m.get_rows(), m.get_cols(), t.rows, t.cols);
    for i in 0..t.rows {
        for j in 0..t.cols {
            let got = refused(|| m[(i, j)]).map_err(|e| Failure::from(format!("{what}: reading ({i},{j}) of a {}x{} matrix: {e}", t.rows, t.cols)))?;
            ensure!(got == T::of(t.at(i, j)), "{what}: {} element ({i},{j}) of {}x{} is {got}, expected {}", T::NAME, t.rows, t.cols, T::of(t.at(i, j)));
        }
    }
    let listed: Vec<T> = m.iter().copied().collect();
    let expected: Vec<T> = t.v.iter().map(|&x| T::of(x)).collect();
    ensure!(listed == expected, "{what}: iteration gives {listed:?}, expected {expected:?}");
    Ok(())
}

fn gen_dim(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[12, 1, 2]) {
        0 => s.usize(1, 5.min(max)),
        1 => 0,
        _ => s.usize(1, max),
    }
}

fn gen_table(s: &mut Src, rows: usize, cols: usize, limit: i64) -> Table {
    let kind = s.weighted(&[6, 2, 1]);
    let v = (0..rows * cols)
        .map(|k| match kind {
            0 => s.int(-limit.min(99), limit.min(99)),
            1 => s.int(-limit, limit),
            _ => (k as i64 + 1).min(limit), // all different while it lasts
        })
        .collect();
    Table { rows, cols, v }
}

// ------------------------------------------------------------------ C01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C01Case {
    ty: Ty,
    t: Table,
    other: Table,
    n: usize,
    sets: Vec<(usize, usize, i64)>,
    subs: Vec<(usize, usize, usize, usize)>,
    probes: Vec<(usize, usize)>,
    list_cols: usize,
}

pub struct C01;
impl Prop for C01 {
    type Case = C01Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "An element type, a table of random dimensions (0 to 12, rarely empty or up to 300) and elements, a second table to augment with, random element writes, sub-matrix bounds and index probes in and out of bounds; everything readable is compared with the table. Non-trivial: at least 2 rows, 2 columns and 3 different elements, not square.";
    const QUICK: u64 = 500_000;

    fn generate(s: &mut Src) -> C01Case {
        let ty = *s.pick(&TYPES);
        let (mut r, mut c) = (gen_dim(s, 12), gen_dim(s, 12));
        if s.chance(1, 100) {
            (r, c) = *s.pick(&[(1, 300), (300, 1), (17, 40), (33, 33), (64, 5), (2, 128), (40, 20)]);
        }
        let mut lim = store_limit(ty);
        if ty == Ty::F32 && r > 12 {
            lim >>= 6; // the trace stays exact
        }
        let t = gen_table(s, r, c, lim);
        let r2 = if s.chance(2, 3) { r } else { gen_dim(s, 12) };
        let c2 = gen_dim(s, 8);
        let other = gen_table(s, r2, c2, lim);
        let sets = (0..s.size(4, 12)).map(|_| (s.usize(0, r + 1), s.usize(0, c + 1), s.int(-lim, lim))).collect();
        let subs = (0..s.size(3, 8)).map(|_| (s.usize(0, r), s.usize(0, c), s.usize(0, r), s.usize(0, c))).collect();
        let mut probes: Vec<(usize, usize)> = (0..s.size(3, 6)).map(|_| (s.usize(0, r + 2), s.usize(0, c + 2))).collect();
        // an index beyond the columns that is still inside the storage
        probes.push((0, c));
        probes.push((r, 0));
        if s.chance(1, 8) {
            probes.push((usize::MAX, 0));
            probes.push((0, usize::MAX));
            probes.push((r.wrapping_neg().wrapping_add(1), c));
        }
        C01Case { ty, t, other, n: s.size(5, 9), sets, subs, probes, list_cols: s.usize(0, 13) }
    }

    fn check(c: &C01Case) -> Checked {
        with_type!(c.ty, c01, c)
    }
}

fn c01<T: El>(c: &C01Case) -> Checked {
    let t = &c.t;
    let m: Matrix<T> = if t.v.is_empty() { Matrix::new(t.rows, t.cols) } else { t.build()? };
    agrees(&m, t, "built from a list")?;
    let vals: Vec<T> = t.v.iter().map(|&x| T::of(x)).collect();

    // construction
    agrees(&Matrix::<T>::new(t.rows, t.cols), &Table::of_fn(t.rows, t.cols, |_, _| 0), "zeros")?;
    let id = Matrix::<T>::new_identity(c.n);
    ensure!(id.get_rows() == c.n && id.get_cols() == c.n, "identity of {} is {}x{}", c.n, id.get_rows(), id.get_cols());
    for i in 0..c.n {
        for j in 0..c.n {
            let e = if i == j { T::one() } else { T::zero() };
            ensure!(id[(i, j)] == e, "identity of {} has {} at ({i},{j})", c.n, id[(i, j)]);
        }
    }
    agrees(&Matrix::from_row_vec(vals.clone()), &Table { rows: 1, cols: vals.len(), v: t.v.clone() }, "row vector")?;
    agrees(&Matrix::from_col_vec(vals.clone()), &Table { rows: vals.len(), cols: 1, v: t.v.clone() }, "column vector")?;
    if vals.len() >= 3 {
        let three = Table { rows: 1, cols: 3, v: t.v[..3].to_vec() };
        agrees(&row_vec![vals[0], vals[1], vals[2]], &three, "row_vec!")?;
        agrees(&col_vec![vals[0], vals[1], vals[2]], &Table { rows: 3, cols: 1, ..three }, "col_vec!")?;
    }
    let cols = c.list_cols;
    match Matrix::from_vec(cols, vals.clone()) {
        Ok(l) => {
            ensure!(if cols == 0 { vals.is_empty() } else { vals.len() % cols == 0 }, "a list of {} elements was accepted in {cols} columns", vals.len());
            if cols > 0 {
                agrees(&l, &Table { rows: vals.len() / cols, cols, v: t.v.clone() }, "from_vec")?;
            }
        }
        Err(_) => ensure!(cols == 0 || vals.len() % cols != 0, "a list of {} elements was refused in {cols} columns", vals.len()),
    }

    // conversion, display, comparison
    let back: Vec<T> = m.clone().into();
    ensure!(back == vals, "converted to a list: {back:?}, expected {vals:?}");
    let shown = format!("{m}");
    let rows: Vec<String> = (0..t.rows).map(|i| (0..t.cols).map(|j| format!("{}", T::of(t.at(i, j)))).collect::<Vec<_>>().join(", ")).collect();
    let expected = if t.rows == 0 || t.cols == 0 { "[]".to_string() } else { format!("[{}]", rows.join("; ")) };
    ensure!(shown == expected, "displayed as {shown}, expected {expected}");
    ensure!(m == m.clone(), "a clone differs from its original");
    if !t.v.is_empty() {
        let last = t.v.len() - 1;
        let mut u = t.clone();
        u.v[last] += if u.v[last] > 0 { -1 } else { 1 };
        let changed: Matrix<T> = u.build()?;
        ensure!(m != changed, "matrices that differ in the last element compare equal");
        if t.rows != t.cols {
            let reshaped = Matrix::from_vec(t.rows, vals.clone()).map_err(|e| Failure::from(e.to_string()))?;
            ensure!(m != reshaped, "matrices of different dimensions compare equal");
        }
    }

    // probes outside the bounds
    for &(i, j) in &c.probes {
        if i < t.rows && j < t.cols {
            continue;
        }
        let r = refused(|| m[(i, j)]);
        ensure!(r.is_err(), "reading ({i},{j}) of a {}x{} matrix gives {:?}", t.rows, t.cols, r);
        let mut w = m.clone();
        let r = refused(|| w[(i, j)] = T::of(1));
        ensure!(r.is_err(), "writing ({i},{j}) of a {}x{} matrix is not refused", t.rows, t.cols);
        agrees(&w, t, "after a refused write")?;
    }

    // writes
    let mut w = m.clone();
    let mut model = t.clone();
    for &(i, j, v) in &c.sets {
        let r = refused(|| w[(i, j)] = T::of(v));
        if i < t.rows && j < t.cols {
            ensure!(r.is_ok(), "writing ({i},{j}) of a {}x{} matrix is refused: {:?}", t.rows, t.cols, r);
            model.v[i * t.cols + j] = v;
        } else {
            ensure!(r.is_err(), "writing ({i},{j}) of a {}x{} matrix is not refused", t.rows, t.cols);
        }
        agrees(&w, &model, &format!("after writing ({i},{j})"))?;
    }
    agrees(&m, t, "the original after writes to a clone")?;

    // transposition
    let tr = m.transpose();
    agrees(&tr, &Table::of_fn(t.cols, t.rows, |i, j| t.at(j, i)), "transposed")?;
    agrees(&tr.transpose(), t, "transposed twice")?;

    // sub-matrices
    let mut sub_ok = 0;
    for &(r1, c1, r2, c2) in &c.subs {
        let inside = r1 <= r2 && c1 <= c2 && r2 < t.rows && c2 < t.cols;
        let r = refused(|| m.subset(r1, c1, r2, c2));
        match r {
            Ok(sub) => {
                ensure!(inside, "sub-matrix ({r1},{c1})..({r2},{c2}) of a {}x{} matrix is not refused", t.rows, t.cols);
                agrees(&sub, &Table::of_fn(r2 - r1 + 1, c2 - c1 + 1, |i, j| t.at(r1 + i, c1 + j)), &format!("sub-matrix ({r1},{c1})..({r2},{c2})"))?;
                sub_ok += 1;
            }
            Err(e) => ensure!(!inside, "sub-matrix ({r1},{c1})..({r2},{c2}) of a {}x{} matrix is refused: {e}", t.rows, t.cols),
        }
    }
    if t.rows > 0 && t.cols > 0 {
        agrees(&m.subset(0, 0, t.rows - 1, t.cols - 1), t, "whole sub-matrix")?;
    }

    // augmentation
    let o = &c.other;
    let om: Matrix<T> = if o.v.is_empty() { Matrix::new(o.rows, o.cols) } else { o.build()? };
    match m.augment_with(&om) {
        Ok(a) => {
            ensure!(o.rows == t.rows, "augmenting {} rows with {} rows is not refused", t.rows, o.rows);
            let e = Table::of_fn(t.rows, t.cols + o.cols, |i, j| if j < t.cols { t.at(i, j) } else { o.at(i, j - t.cols) });
            agrees(&a, &e, "augmented")?;
            agrees(&(&m | &om), &e, "augmented with |")?;
        }
        Err(e) => {
            ensure!(o.rows != t.rows, "augmenting {}x{} with {}x{} is refused: {e}", t.rows, t.cols, o.rows, o.cols);
            ensure!(refused(|| &m | &om).is_err(), "augmenting with | is not refused");
        }
    }
    agrees(&om, o, "the right operand of an augmentation")?;

    // trace, on values that cannot overflow
    match refused(|| m.trace()) {
        Ok(Ok(tr)) => {
            ensure!(t.rows == t.cols, "the trace of a {}x{} matrix is {tr}", t.rows, t.cols);
            let e = (0..t.rows).fold(0i64, |a, i| a + t.at(i, i));
            ensure!(tr == T::of(e), "trace is {tr}, expected {}", T::of(e));
        }
        Ok(Err(_)) => ensure!(t.rows != t.cols, "the trace of a {}x{} matrix is refused", t.rows, t.cols),
        Err(e) => {
            let sum: i64 = (0..t.rows.min(t.cols)).map(|i| t.at(i, i).abs()).sum();
            ensure!(t.rows == t.cols && sum > 100, "trace panicked: {e}");
        }
    }
    agrees(&m, t, "the original at the end")?;

    let mut distinct = t.v.clone();
    distinct.sort_unstable();
    distinct.dedup();
    let mut labels = vec![T::NAME];
    if t.v.is_empty() {
        labels.push("empty");
    }
    if sub_ok > 0 {
        labels.push("submatrix");
    }
    if t.rows == o.rows {
        labels.push("augmented");
    }
    ok(t.rows >= 2 && t.cols >= 2 && t.rows != t.cols && distinct.len() >= 3, labels)
}

// ------------------------------------------------------------------ C02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C02Case {
    ty: Ty,
    a: Table,
    b: Table,
    scalar: i64,
}

pub struct C02;
impl Prop for C02 {
    type Case = C02Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "An element type and two tables whose dimensions fit for addition, for multiplication, for both or for neither, with elements small enough to be exact; every operator in every owned/borrowed form is compared with the definition on the tables. Non-trivial: an operation fits, and the operands are not square and have at least 2 rows and columns.";
    const QUICK: u64 = 525_000;

    fn generate(s: &mut Src) -> C02Case {
        let ty = *s.pick(&TYPES);
        let mut lim = product_limit(ty);
        let (mut r, mut c) = (gen_dim(s, 8), gen_dim(s, 8));
        if s.chance(1, 100) {
            // up to 40 terms
            lim = lim * 2 / 5;
            (r, c) = *s.pick(&[(1, 40), (40, 1), (17, 33), (33, 17), (20, 20), (9, 40)]);
        } else if s.chance(1, 200) {
            lim = (lim / 4).max(1);
            (r, c) = *s.pick(&[(1, 100), (100, 1), (2, 65), (65, 3), (67, 67), (5, 100)]);
        }
        let (r2, c2) = match s.weighted(&[4, 4, 1, 1]) {
            0 => (r, c),
            1 => (c, gen_dim(s, 8)),
            2 => (c, r), // same number of elements, other shape
            _ => (gen_dim(s, 8), gen_dim(s, 8)),
        };
        let a = gen_table(s, r, c, lim);
        let b = gen_table(s, r2, c2, lim);
        C02Case { ty, a, b, scalar: s.int(-lim, lim) }
    }

    fn check(c: &C02Case) -> Checked {
        with_type!(c.ty, c02, c)
    }
}

/// Sums and products of table entries as elements: floats hold halves
fn c02<T: El>(c: &C02Case) -> Checked {
    let (ta, tb) = (&c.a, &c.b);
    let a: Matrix<T> = ta.build()?;
    let b: Matrix<T> = tb.build()?;
    let k = T::of(c.scalar);
    let same = ta.rows == tb.rows && ta.cols == tb.cols;

    let cmp = |m: Matrix<T>, rows: usize, cols: usize, e: &dyn Fn(usize, usize) -> T, what: &str| -> Result<(), Failure> {
        ensure!(m.get_rows() == rows && m.get_cols() == cols, "{what} of {}x{} and {}x{} is {}x{}", ta.rows, ta.cols, tb.rows, tb.cols, m.get_rows(), m.get_cols());
        ensure!(m.iter().count() == rows * cols, "{what}: a {rows}x{cols} result with {} elements", m.iter().count());
        for i in 0..rows {
            for j in 0..cols {
                let (got, e) = (m[(i, j)], e(i, j));
                ensure!(got == e, "{what} ({}): element ({i},{j}) is {got}, expected {e}", T::NAME);
            }
        }
        Ok(())
    };
    let el = |t: &Table, i: usize, j: usize| T::of(t.at(i, j));

    // sums and differences
    let add = |i: usize, j: usize| el(ta, i, j) + el(tb, i, j);
    let sub = |i: usize, j: usize| el(ta, i, j) - el(tb, i, j);
    macro_rules! forms {
        ($op:tt, $what:literal, $fits:expr, $rows:expr, $cols:expr, $e:expr) => {{
            let forms: [(&str, Box<dyn Fn() -> Matrix<T>>); 4] = [
                ("owned, owned", Box::new(|| a.clone() $op b.clone())),
                ("borrowed, owned", Box::new(|| &a $op b.clone())),
                ("owned, borrowed", Box::new(|| a.clone() $op &b)),
                ("borrowed, borrowed", Box::new(|| &a $op &b)),
            ];
            for (name, f) in forms {
                match refused(f) {
                    Ok(m) => {
                        ensure!($fits, "{} ({name}) of {}x{} and {}x{} is not refused", $what, ta.rows, ta.cols, tb.rows, tb.cols);
                        cmp(m, $rows, $cols, &$e, &format!("{} ({name})", $what))?;
                    }
                    Err(e) => ensure!(!$fits, "{} ({name}) of {}x{} and {}x{} is refused: {e}", $what, ta.rows, ta.cols, tb.rows, tb.cols),
                }
            }
        }};
    }
    forms!(+, "sum", same, ta.rows, ta.cols, add);
    forms!(-, "difference", same, ta.rows, ta.cols, sub);
    let fits = ta.cols == tb.rows;
    let prod = |i: usize, j: usize| (0..ta.cols).fold(T::zero(), |s, x| s + el(ta, i, x) * el(tb, x, j));
    forms!(*, "product", fits, ta.rows, tb.cols, prod);
    match a.multiply_matrix(&b) {
        Ok(m) => {
            ensure!(fits, "multiply_matrix of {}x{} and {}x{} is not refused", ta.rows, ta.cols, tb.rows, tb.cols);
            cmp(m, ta.rows, tb.cols, &prod, "multiply_matrix")?;
        }
        Err(e) => ensure!(!fits, "multiply_matrix of {}x{} and {}x{} is refused: {e}", ta.rows, ta.cols, tb.rows, tb.cols),
    }

    // assignment forms
    let mut m = a.clone();
    match refused(|| m += b.clone()) {
        Ok(()) => {
            ensure!(same, "+= of {}x{} and {}x{} is not refused", ta.rows, ta.cols, tb.rows, tb.cols);
            cmp(m, ta.rows, ta.cols, &add, "+=")?;
        }
        Err(e) => {
            ensure!(!same, "+= is refused: {e}");
            agrees(&m, ta, "after a refused +=")?;
        }
    }
    let mut m = a.clone();
    match refused(|| m -= b.clone()) {
        Ok(()) => {
            ensure!(same, "-= of {}x{} and {}x{} is not refused", ta.rows, ta.cols, tb.rows, tb.cols);
            cmp(m, ta.rows, ta.cols, &sub, "-=")?;
        }
        Err(e) => {
            ensure!(!same, "-= is refused: {e}");
            agrees(&m, ta, "after a refused -=")?;
        }
    }

    // scalars
    let scaled = |i: usize, j: usize| el(ta, i, j) * k;
    cmp(a.clone() * k, ta.rows, ta.cols, &scaled, "scalar product (owned)")?;
    cmp(&a * k, ta.rows, ta.cols, &scaled, "scalar product (borrowed)")?;

    agrees(&a, ta, "the left operand afterwards")?;
    agrees(&b, tb, "the right operand afterwards")?;
    let mut labels = vec![T::NAME];
    if same {
        labels.push("sum fits");
    }
    if fits {
        labels.push("product fits");
    }
    if !same && !fits {
        labels.push("nothing fits");
    }
    ok((same || fits) && ta.rows >= 2 && ta.cols >= 2 && (ta.rows != ta.cols || tb.rows != tb.cols), labels)
}

// ------------------------------------------------------------------ C03

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum RowOp {
    Swap(usize, usize),
    Scale(usize, i64),
    ScaleAll(i64),
    Add(usize, usize),
    ScaledAdd(usize, usize, i64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C03Case {
    ty: Ty,
    t: Table,
    ops: Vec<RowOp>,
}

pub struct C03;
impl Prop for C03 {
    type Case = C03Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "An element type, a table and a history of up to 12 (rarely 30) row operations with rows in and out of bounds, and of a row on itself; the matrix is compared with the table after each. Operations whose result would leave the exact range are skipped. Non-trivial: at least 3 operations took effect on a non-square matrix of at least 2 rows and columns.";
    const QUICK: u64 = 750_000;

    fn generate(s: &mut Src) -> C03Case {
        let ty = *s.pick(&TYPES);
        let (mut r, mut c) = (gen_dim(s, 9), gen_dim(s, 9));
        if s.chance(1, 50) {
            c = s.usize(10, 70);
        } else if s.chance(1, 100) {
            (r, c) = *s.pick(&[(40, 1), (40, 3), (17, 33), (33, 17), (66, 5), (20, 20)]);
        }
        let t = gen_table(s, r, c, if ty == Ty::I8 { 9 } else { 99 });
        let n = if s.chance(1, 12) { s.usize(12, 30) } else { s.usize(1, 12) };
        let row = |s: &mut Src| if s.chance(1, 12) { r + s.usize(0, 2) } else { s.usize(0, r.max(1) - 1) };
        let ops = (0..n)
            .map(|_| match s.below(5) {
                0 => RowOp::Swap(row(s), row(s)),
                1 => RowOp::Scale(row(s), s.int(-4, 4)),
                2 => RowOp::ScaleAll(s.int(-3, 3)),
                3 => RowOp::Add(row(s), row(s)),
                _ => RowOp::ScaledAdd(row(s), row(s), s.int(-4, 4)),
            })
            .collect();
        C03Case { ty, t, ops }
    }

    fn check(c: &C03Case) -> Checked {
        with_type!(c.ty, c03, c)
    }
}

fn apply_op(t: &Table, op: &RowOp) -> Option<Table> {
    let mut u = t.clone();
    let c = t.cols;
    let ok_row = |r: usize| r < t.rows;
    match *op {
        RowOp::Swap(a, b) => {
            if !ok_row(a) || !ok_row(b) {
                return None;
            }
            for j in 0..c {
                u.v[a * c + j] = t.at(b, j);
                u.v[b * c + j] = t.at(a, j);
            }
        }
        RowOp::Scale(a, k) => {
            if !ok_row(a) {
                return None;
            }
            for j in 0..c {
                u.v[a * c + j] *= k;
            }
        }
        RowOp::ScaleAll(k) => u.v.iter_mut().for_each(|x| *x *= k),
        RowOp::Add(a, b) => {
            if !ok_row(a) || !ok_row(b) {
                return None;
            }
            for j in 0..c {
                u.v[a * c + j] += t.at(b, j);
            }
        }
        RowOp::ScaledAdd(a, b, k) => {
            if !ok_row(a) || !ok_row(b) {
                return None;
            }
            for j in 0..c {
                u.v[a * c + j] += t.at(b, j) * k;
            }
        }
    }
    Some(u)
}

/// A scalar as an element: table entries are halves for floats, scalars are whole
fn scalar<T: El>(k: i64) -> T {
    let mut x = T::zero();
    for _ in 0..k.abs() {
        x += T::one();
    }
    if k < 0 { -x } else { x }
}

fn c03<T: El>(c: &C03Case) -> Checked {
    let mut m: Matrix<T> = c.t.build()?;
    let mut t = c.t.clone();
    let limit = match c.ty {
        Ty::I8 => 120 / 5,
        Ty::I16 => 30_000 / 5,
        Ty::F32 => 1 << 20,
        _ => 1 << 28,
    };
    let (mut done, mut refusals, mut selfs) = (0, 0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        // an intermediate product must fit as well as the result
        let big = t.v.iter().map(|x| x.abs()).max().unwrap_or(0);
        if big > limit {
            break;
        }
        let expected = apply_op(&t, op);
        let r = refused(|| match *op {
            RowOp::Swap(a, b) => m.inplace_row_swap(a, b),
            RowOp::Scale(a, k) => m.inplace_row_scale(a, scalar::<T>(k)),
            RowOp::ScaleAll(k) => m.inplace_scale(scalar::<T>(k)),
            RowOp::Add(a, b) => m.inplace_row_add(a, b),
            RowOp::ScaledAdd(a, b, k) => m.inplace_scaled_row_add(a, b, scalar::<T>(k)),
        });
        let what = format!("after operation {n} ({op:?}) on {}x{}", t.rows, t.cols);
        match (r, expected) {
            (Ok(()), Some(u)) => {
                t = u;
                done += 1;
                if let RowOp::Swap(a, b) | RowOp::Add(a, b) | RowOp::ScaledAdd(a, b, _) = *op {
                    selfs += (a == b) as u32;
                }
            }
            // without columns there is nothing to refuse
            (Ok(()), None) => ensure!(t.cols == 0, "{what}: a row outside the matrix is not refused"),
            (Err(e), Some(_)) => fail!("{what}: refused: {e}"),
            (Err(_), None) => refusals += 1,
        }
        agrees(&m, &t, &what)?;
    }
    let mut labels = vec![T::NAME];
    if refusals > 0 {
        labels.push("refused operation");
    }
    if selfs > 0 {
        labels.push("row with itself");
    }
    ok(done >= 3 && t.rows >= 2 && t.cols >= 2 && t.rows != t.cols, labels)
}

// ------------------------------------------------------------------ C04

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C04Case {
    n: usize,
    v: Vec<F>,
    kind: String,
    /// power of two that all elements are multiplied by
    #[serde(default)]
    power: i32,
    /// powers of two that the rows are multiplied by as well
    #[serde(default)]
    rows: Vec<i32>,
    /// rectangular matrix to refuse
    rect: (usize, usize),
}

pub struct C04;
impl Prop for C04 {
    type Case = C04Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "Square matrices of 1 to 12 rows, rarely up to 36: dense, sparse, triangular, permutation-like, ill-scaled, structured with zero diagonals, with tiny pivots or of integers with determinant ±1, all elements or (up to 4 rows) each row rarely multiplied by a large or small power of two, and singular ones (zero row or column, dependent rows of small integers). Inverted in f64 and f32, the ones of determinant ±1 also exactly in i64 and i32; compared with an independent full-pivoting inverse, and both products with the identity; badly conditioned ones (condition above 1e7) only have to end without a panic. Non-trivial: invertible, well conditioned, at least 2 rows, not diagonal; or singular with a non-zero element.";
    const QUICK: u64 = 750_000;

    fn generate(s: &mut Src) -> C04Case {
        let n = match s.weighted(&[1, 3, 4, 5, 4, 2]) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            4 => s.usize(5, 7),
            _ if s.chance(1, 8) => s.usize(13, 36),
            _ => s.usize(8, 12),
        };
        let kind = *s.pick(&["integers", "dense", "sparse", "permutation", "upper", "lower", "zero diagonal", "scaled rows", "zero row", "zero column", "dependent rows", "near identity", "block", "hadamard", "tiny pivots", "unimodular"]);
        let mut v = vec![0.0; n * n];
        match kind {
            "integers" | "dependent rows" | "zero row" | "zero column" | "zero diagonal" => v.iter_mut().for_each(|x| *x = s.int(-9, 9) as f64),
            "dense" | "scaled rows" => v.iter_mut().for_each(|x| *x = s.decimal(10, 3)),
            "sparse" => v.iter_mut().for_each(|x| *x = if s.chance(2, 5) { s.decimal(10, 1) } else { 0.0 }),
            "permutation" | "near identity" | "block" | "tiny pivots" => {
                let mut p: Vec<usize> = (0..n).collect();
                if kind == "permutation" || kind == "tiny pivots" {
                    s.shuffle(&mut p);
                }
                for i in 0..n {
                    let d = s.int(1, 9) as f64;
                    v[i * n + p[i]] = if s.chance(1, 2) { -d } else { d };
                }
                let extra = s.size(3, n * n);
                for _ in 0..extra {
                    let (i, j) = (s.usize(0, n - 1), s.usize(0, n - 1));
                    if v[i * n + j] == 0.0 {
                        v[i * n + j] = if kind == "tiny pivots" { s.int(-9, 9) as f64 * 10f64.powi(s.int(-25, -8) as i32) } else if kind == "block" { if i / 2 == j / 2 { s.int(-9, 9) as f64 } else { 0.0 } } else { s.decimal(1, 2) };
                    }
                }
            }
            "unimodular" => {
                for i in 0..n {
                    for j in 0..n {
                        v[i * n + j] = if i == j {
                            if s.chance(1, 2) { 1.0 } else { -1.0 }
                        } else if i < j {
                            s.int(-2, 2) as f64
                        } else {
                            0.0
                        };
                    }
                }
                // row operations that keep the determinant, then an order of the rows; the
                // elimination of larger integer matrices has no fractions and wants unit pivots
                for _ in 0..if n <= 4 { s.usize(0, 6) } else { 0 } {
                    let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 1));
                    let k = s.int(-2, 2) as f64;
                    if a != b {
                        (0..n).for_each(|j| v[a * n + j] += k * v[b * n + j]);
                    }
                }
                if n <= 4 && n > 1 {
                    let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 1));
                    (0..n).for_each(|j| v.swap(a * n + j, b * n + j));
                }
            }
            "hadamard" => v.iter_mut().for_each(|x| *x = if s.chance(1, 2) { -1.0 } else { 1.0 }),
            _ => {
                for i in 0..n {
                    for j in 0..n {
                        if (kind == "upper" && j >= i) || (kind == "lower" && j <= i) {
                            v[i * n + j] = s.int(-9, 9) as f64;
                        }
                    }
                    if v[i * n + i] == 0.0 {
                        v[i * n + i] = 1.0;
                    }
                }
            }
        }
        match kind {
            "zero diagonal" => (0..n).for_each(|i| v[i * n + i] = 0.0),
            "scaled rows" => {
                for i in 0..n {
                    let k = 10f64.powi(s.int(-3, 3) as i32);
                    (0..n).for_each(|j| v[i * n + j] *= k);
                }
            }
            "zero row" => {
                let r = s.usize(0, n - 1);
                (0..n).for_each(|j| v[r * n + j] = 0.0);
            }
            "zero column" => {
                let r = s.usize(0, n - 1);
                (0..n).for_each(|i| v[i * n + r] = 0.0);
            }
            "dependent rows" if n >= 2 => {
                let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 2));
                let b = if b >= a { b + 1 } else { b };
                let k = s.int(-3, 3) as f64;
                (0..n).for_each(|j| v[a * n + j] = k * v[b * n + j]);
            }
            _ => {}
        }
        let power = if s.chance(1, 8) { if s.chance(1, 2) { s.int(-330, 330) as i32 } else { s.int(-70, 70) as i32 } } else { 0 };
        let rows = if n <= 4 && s.chance(1, 8) { (0..n).map(|_| s.int(-150, 150) as i32).collect() } else { vec![] };
        C04Case { n, v: fs(&v), kind: kind.into(), power: if rows.is_empty() { power } else { 0 }, rows, rect: (s.usize(0, 7), s.usize(0, 7)) }
    }

    fn check(c: &C04Case) -> Checked {
        c04(c)
    }
}

/// Determinant of an integer matrix of up to 4 rows, exactly
fn det_exact(a: &[Vec<i128>]) -> i128 {
    let n = a.len();
    if n == 1 {
        return a[0][0];
    }
    (0..n)
        .map(|j| {
            let minor: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
            (if j % 2 == 0 { 1 } else { -1 }) * a[0][j] * det_exact(&minor)
        })
        .sum()
}

fn mul(a: &[Vec<f64>], b: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}

/// The inverse of an integer matrix of determinant 1 or -1, exactly
fn integers(n: usize, v: &[i64]) -> Result<(), Failure> {
    let check = |got: Vec<i64>, what: &str| -> Result<(), Failure> {
        for i in 0..n {
            for j in 0..n {
                let x: i64 = (0..n).map(|k| v[i * n + k] * got[k * n + j]).sum();
                ensure!(x == (i == j) as i64, "the product of {v:?} ({n}x{n}) with its {what} inverse {got:?} has {x} at ({i},{j})");
            }
        }
        Ok(())
    };
    let mut m = Matrix::<i64>::from_vec(n, v.to_vec()).map_err(|e| Failure::from(e.to_string()))?;
    if let Err(e) = m.try_inplace_invert() {
        fail!("the i64 matrix {v:?} ({n}x{n}) of determinant 1 or -1 is refused: {e}");
    }
    check(m.into(), "i64")?;
    // cofactors of at most 6 terms of 3 factors stay far from the limit
    if n <= 4 && v.iter().all(|x| x.abs() <= 50) {
        let mut m = Matrix::<i32>::from_vec(n, v.iter().map(|&x| x as i32).collect()).map_err(|e| Failure::from(e.to_string()))?;
        if let Err(e) = m.try_inplace_invert() {
            fail!("the i32 matrix {v:?} ({n}x{n}) of determinant 1 or -1 is refused: {e}");
        }
        let got: Vec<i32> = m.into();
        check(got.into_iter().map(i64::from).collect(), "i32")?;
    }
    Ok(())
}

/// Multiplying a row by a power of two multiplies a column of the inverse by its reciprocal
fn row_scaled(c: &C04Case, v: &[f64], a: &[Vec<f64>]) -> Result<(), Failure> {
    let n = c.n;
    let Some(inv) = invert_dense(a) else { return Ok(()) };
    let cond = norm(a) * norm(&inv);
    if !(cond < 1e6) {
        return Ok(());
    }
    let w: Vec<f64> = (0..n * n).map(|k| v[k] * 2f64.powi(c.rows[k / n])).collect();
    let mut m = Matrix::from_vec(n, w).map_err(|e| Failure::from(e.to_string()))?;
    if let Err(e) = m.try_inplace_invert() {
        fail!("an invertible {n}x{n} matrix ({}) with rows times 2 to the {:?} is refused: {e}", c.kind, c.rows);
    }
    let (tol, scale) = (1e-12 * cond * cond.min(1e4) * (n as f64), norm(&inv));
    for i in 0..n {
        for j in 0..n {
            let x = m[(i, j)] * 2f64.powi(c.rows[j]);
            ensure!((x - inv[i][j]).abs() <= tol * scale, "inverse of a {n}x{n} matrix ({}) with rows times 2 to the {:?}: element ({i},{j}) is {}, expected {}", c.kind, c.rows, m[(i, j)], inv[i][j] / 2f64.powi(c.rows[j]));
        }
    }
    Ok(())
}

fn c04(c: &C04Case) -> Checked {
    let n = c.n;
    let mut v = raw(&c.v);
    let small_ints = v.iter().all(|x| x.fract() == 0.0 && x.abs() <= 100.0);
    let whole: Vec<Vec<i128>> = (0..n).map(|i| v[i * n..(i + 1) * n].iter().map(|&x| x as i128).collect()).collect();
    v.iter_mut().for_each(|x| *x *= 2f64.powi(c.power));
    let a: Vec<Vec<f64>> = (0..n).map(|i| v[i * n..(i + 1) * n].to_vec()).collect();

    // non-square matrices
    let (r, k) = c.rect;
    if r != k {
        let vals: Vec<f64> = (0..r * k).map(|x| x as f64 + 1.0).collect();
        let mut m: Matrix<f64> = if vals.is_empty() { Matrix::new(r, k) } else { Matrix::from_vec(k, vals).map_err(|e| Failure::from(e.to_string()))? };
        let before = m.clone();
        ensure!(m.try_inplace_invert().is_err(), "a {r}x{k} matrix was inverted");
        ensure!(m == before, "a refused {r}x{k} matrix was changed");
    }

    let zero_line = (0..n).any(|i| a[i].iter().all(|&x| x == 0.0) || a.iter().all(|r| r[i] == 0.0));
    if c.kind == "unimodular" {
        integers(n, &v.iter().map(|&x| (x / 2f64.powi(c.power)) as i64).collect::<Vec<_>>())?;
    }
    if !c.rows.is_empty() {
        row_scaled(c, &v, &a)?;
    }
    let singular = zero_line || (n <= 4 && small_ints && det_exact(&whole) == 0);

    let mut m = Matrix::from_vec(n, v.clone()).map_err(|e| Failure::from(e.to_string()))?;
    let res = m.try_inplace_invert();
    let label: &'static str = match n {
        1 => "1",
        2 => "2",
        3 => "3",
        4 => "4",
        _ => "5 or more",
    };
    if singular {
        ensure!(res.is_err(), "a singular {n}x{n} matrix ({}) was inverted to {m}", c.kind);
        let mut f = Matrix::from_vec(n, v.iter().map(|&x| x as f32).collect()).unwrap();
        ensure!(c.power.abs() > 70 || f.try_inplace_invert().is_err(), "a singular {n}x{n} f32 matrix was inverted");
        return ok(v.iter().any(|&x| x != 0.0), vec!["singular", label]);
    }
    let Some(inv) = invert_dense(&a) else { return ok(false, vec!["ill conditioned"]) };
    let cond = norm(&a) * norm(&inv);
    if !(cond < 1e7) {
        return ok(false, vec!["ill conditioned"]);
    }
    if let Err(e) = res {
        fail!("an invertible {n}x{n} matrix (condition {cond:.1e}, {}) is refused: {e}", c.kind);
    }
    ensure!(m.get_rows() == n && m.get_cols() == n && m.iter().count() == n * n, "the inverse of a {n}x{n} matrix is {}x{}", m.get_rows(), m.get_cols());
    let got: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect();
    let scale = norm(&inv);
    let tol = 1e-12 * cond * cond.min(1e4) * (n as f64);
    for i in 0..n {
        for j in 0..n {
            ensure!((got[i][j] - inv[i][j]).abs() <= tol * scale, "inverse of a {n}x{n} matrix ({}, condition {cond:.1e}): element ({i},{j}) is {}, expected {}", c.kind, got[i][j], inv[i][j]);
        }
    }
    for (p, side) in [(mul(&a, &got), "right"), (mul(&got, &a), "left")] {
        for i in 0..n {
            for j in 0..n {
                let e = if i == j { 1.0 } else { 0.0 };
                ensure!((p[i][j] - e).abs() <= tol * cond.max(1.0), "product with the {side} inverse of a {n}x{n} matrix has {} at ({i},{j})", p[i][j]);
            }
        }
    }
    // twice
    if cond < 1e5 {
        let mut twice = m.clone();
        if let Err(e) = twice.try_inplace_invert() {
            fail!("the inverse of a {n}x{n} matrix cannot be inverted: {e}");
        }
        for i in 0..n {
            for j in 0..n {
                ensure!((twice[(i, j)] - a[i][j]).abs() <= tol * cond * norm(&a), "inverted twice: element ({i},{j}) is {}, expected {}", twice[(i, j)], a[i][j]);
            }
        }
    }
    // single precision
    if cond < 1e3 && c.power.abs() <= 70 && c.kind != "tiny pivots" {
        let mut f = Matrix::from_vec(n, v.iter().map(|&x| x as f32).collect()).unwrap();
        if let Err(e) = f.try_inplace_invert() {
            fail!("an invertible {n}x{n} f32 matrix (condition {cond:.1e}, {}) is refused: {e}", c.kind);
        }
        let tol32 = 1e-5 * cond * cond.min(1e2) * (n as f64);
        for i in 0..n {
            for j in 0..n {
                ensure!((f[(i, j)] as f64 - inv[i][j]).abs() <= tol32 * scale, "f32 inverse of a {n}x{n} matrix ({}): element ({i},{j}) is {}, expected {}", c.kind, f[(i, j)], inv[i][j]);
            }
        }
    }
    let diagonal = (0..n).all(|i| (0..n).all(|j| i == j || a[i][j] == 0.0));
    ok(n >= 2 && !diagonal, vec!["invertible", label])
}

// ------------------------------------------------------------------ C05

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum COp {
    New(u32, u32),
    Huge,
    Identity(u32),
    Set(usize, u32, u32, i64),
    Get(usize, u32, u32),
    Swap(usize, u32, u32),
    RowScale(usize, u32, i64),
    Scale(usize, i64),
    RowAdd(usize, u32, u32),
    ScaledRowAdd(usize, u32, u32, i64),
    Multiply(usize, usize),
    Augment(usize, usize),
    Subset(usize, u32, u32, u32, u32),
    Trace(usize),
    Transpose(usize),
    Invert(usize),
    Clone(usize),
    Free(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C05Case {
    ops: Vec<COp>,
}

pub struct C05;
impl Prop for C05 {
    type Case = C05Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "Histories of 3 to 30 C calls over a pool of matrices: creation, element access, row operations, products, augmentation, sub-matrices, inversion, copies and releases, with indices and dimensions that may not fit; run under an allocator that keeps released blocks and reports second releases, writes after release and leaks. All live matrices are compared with tables after every call. Non-trivial: at least 6 calls, 2 matrices alive at once, and a matrix made from others.";
    const QUICK: u64 = 525_000;

    fn generate(s: &mut Src) -> C05Case {
        let k = s.tail(22, 60);
        let n = s.usize(3, k);
        // handles are taken modulo the number of live matrices
        let top = if s.chance(1, 20) { s.usize(6, 14) } else { 5 };
        let dim = |s: &mut Src| if s.chance(1, 15) { 0 } else { s.usize(1, top) as u32 };
        let ix = |s: &mut Src| s.usize(0, top) as u32;
        let mut ops = vec![COp::New(dim(s), dim(s))];
        // fill it
        for _ in 0..s.usize(0, 8) {
            ops.push(COp::Set(0, ix(s), ix(s), s.int(-9, 9)));
        }
        for _ in 0..n {
            let h = s.usize(0, 7);
            let op = match s.weighted(&[3, 1, 2, 8, 3, 2, 2, 1, 2, 3, 6, 4, 4, 2, 3, 4, 3, 4]) {
                0 => COp::New(dim(s), dim(s)),
                1 => COp::Huge,
                2 => COp::Identity(dim(s)),
                3 => COp::Set(h, ix(s), ix(s), s.int(-9, 9)),
                4 => COp::Get(h, ix(s), ix(s)),
                5 => COp::Swap(h, ix(s), ix(s)),
                6 => COp::RowScale(h, ix(s), s.int(-3, 3)),
                7 => COp::Scale(h, s.int(-3, 3)),
                8 => COp::RowAdd(h, ix(s), ix(s)),
                9 => COp::ScaledRowAdd(h, ix(s), ix(s), s.int(-3, 3)),
                10 => COp::Multiply(h, s.usize(0, 7)),
                11 => COp::Augment(h, s.usize(0, 7)),
                12 => COp::Subset(h, ix(s), ix(s), ix(s), ix(s)),
                13 => COp::Trace(h),
                14 => COp::Transpose(h),
                15 => COp::Invert(h),
                16 => COp::Clone(h),
                _ => COp::Free(h),
            };
            ops.push(op);
        }
        C05Case { ops }
    }

    fn check(c: &C05Case) -> Checked {
        // once without tracking, to warm up anything lazily initialised
        let _ = c05(c)?;
        let (r, rep) = alloc::tracked(|| {
            let r = c05(c);
            // the report must not depend on allocations of this closure that outlive it
            match r {
                Ok(i) => Ok((i.nontrivial, i.labels.len())),
                Err(f) => Err(f),
            }
        });
        let _ = r?;
        ensure!(rep.double_free == 0, "{} blocks were released twice", rep.double_free);
        ensure!(rep.bad_layout == 0, "{} blocks were released with another size than they were allocated with", rep.bad_layout);
        ensure!(rep.write_after_free == 0, "{} blocks were written after their release", rep.write_after_free);
        ensure!(rep.live_blocks == 0 && rep.live_bytes == 0, "{} blocks ({} bytes) were never released although every matrix was", rep.live_blocks, rep.live_bytes);
        c05(c)
    }
}

/// Tables of floats: entries are compared exactly while every value is an integer
#[derive(Clone, Debug)]
struct FTable {
    rows: usize,
    cols: usize,
    v: Vec<f64>,
    exact: bool,
}

fn c05(c: &C05Case) -> Checked {
    use gmatlib::ffi::*;
    use std::ffi::c_void;
    struct Pool(Vec<(*mut c_void, FTable)>);
    let mut pool = Pool(vec![]);
    impl Drop for Pool {
        fn drop(&mut self) {
            for (p, _) in self.0.drain(..) {
                free_double_matrix(p);
            }
        }
    }
    let dims = |p: *mut c_void| -> (usize, usize) {
        let m = unsafe { &*(p as *const Matrix<f64>) };
        (m.get_rows(), m.get_cols())
    };
    let (mut made, mut most, mut refusals, mut inverted) = (0, 0, 0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        let len = pool.0.len();
        let h = |i: usize| if len == 0 { None } else { Some(i % len) };
        let what = format!("call {n} ({op:?})");
        macro_rules! at {
            ($i:expr) => {
                match h($i) {
                    Some(i) => i,
                    None => continue,
                }
            };
        }
        macro_rules! status {
            ($got:expr, $fits:expr) => {{
                let got = $got;
                ensure!(got == $fits as u32, "{what}: status {got}, expected {}", $fits as u32);
                if !$fits {
                    refusals += 1;
                }
            }};
        }
        macro_rules! fresh {
            ($p:expr, $t:expr) => {{
                let p = $p;
                let t: Option<FTable> = $t;
                match (p.is_null(), t) {
                    (false, Some(t)) => {
                        ensure!(pool.0.iter().all(|(q, _)| *q != p), "{what}: the result is a matrix that is already in use");
                        pool.0.push((p, t));
                        made += 1;
                    }
                    (true, None) => refusals += 1,
                    (true, Some(_)) => fail!("{what}: refused although everything fits"),
                    (false, None) => {
                        free_double_matrix(p);
                        fail!("{what}: not refused");
                    }
                }
            }};
        }
        match *op {
            COp::New(r, k) => fresh!(new_double_matrix(r, k), Some(FTable { rows: r as usize, cols: k as usize, v: vec![0.0; (r * k) as usize], exact: true })),
            COp::Huge => {
                let p = new_double_matrix(u32::MAX, u32::MAX);
                ensure!(p.is_null(), "{what}: a matrix larger than memory was made");
            }
            COp::Identity(k) => {
                let k = k as usize;
                fresh!(new_double_identity_matrix(k as u32), Some(FTable { rows: k, cols: k, v: (0..k * k).map(|x| if x / k == x % k { 1.0 } else { 0.0 }).collect(), exact: true }))
            }
            COp::Set(i, r, k, x) => {
                let i = at!(i);
                let (p, t) = &mut pool.0[i];
                let fits = (r as usize) < t.rows && (k as usize) < t.cols;
                status!(index_mut_double_matrix(*p, r, k, x as f64), fits);
                if fits {
                    t.v[r as usize * t.cols + k as usize] = x as f64;
                }
            }
            COp::Get(i, r, k) => {
                let (p, t) = &pool.0[at!(i)];
                let fits = (r as usize) < t.rows && (k as usize) < t.cols;
                let got = index_double_matrix(*p, r, k);
                let e = if fits { t.v[r as usize * t.cols + k as usize] } else { f64::MIN };
                ensure!(close(got, e, if t.exact { 0.0 } else { 1e-6 }, if t.exact { 0.0 } else { 1e-6 }), "{what}: {got}, expected {e}");
            }
            COp::Swap(i, a, b) | COp::RowAdd(i, a, b) | COp::ScaledRowAdd(i, a, b, _) => {
                let i = at!(i);
                let (p, t) = &mut pool.0[i];
                let (ra, rb) = (a as usize, b as usize);
                let fits = (ra < t.rows && rb < t.rows) || t.cols == 0;
                let got = match *op {
                    COp::Swap(..) => inplace_row_swap(*p, a, b),
                    COp::RowAdd(..) => inplace_row_add(*p, a, b),
                    COp::ScaledRowAdd(_, _, _, x) => inplace_scaled_row_add(*p, a, b, x as f64),
                    _ => unreachable!(),
                };
                if t.cols > 0 {
                    status!(got, fits);
                }
                if fits {
                    for j in 0..t.cols {
                        let (x, y) = (t.v[ra * t.cols + j], t.v[rb * t.cols + j]);
                        match *op {
                            COp::Swap(..) => {
                                t.v[ra * t.cols + j] = y;
                                t.v[rb * t.cols + j] = x;
                            }
                            COp::RowAdd(..) => t.v[ra * t.cols + j] = x + y,
                            COp::ScaledRowAdd(_, _, _, k) => t.v[ra * t.cols + j] = x + y * k as f64,
                            _ => {}
                        }
                    }
                }
            }
            COp::RowScale(i, a, k) => {
                let i = at!(i);
                let (p, t) = &mut pool.0[i];
                let fits = (a as usize) < t.rows || t.cols == 0;
                let got = inplace_row_scale(*p, a, k as f64);
                if t.cols > 0 {
                    status!(got, fits);
                }
                if fits && t.cols > 0 {
                    for j in 0..t.cols {
                        t.v[a as usize * t.cols + j] *= k as f64;
                    }
                }
            }
            COp::Scale(i, k) => {
                let i = at!(i);
                let (p, t) = &mut pool.0[i];
                status!(inplace_scale(*p, k as f64), true);
                t.v.iter_mut().for_each(|x| *x *= k as f64);
            }
            COp::Multiply(i, j) => {
                let (i, j) = (at!(i), at!(j));
                let (a, b) = (&pool.0[i].1, &pool.0[j].1);
                let e = (a.cols == b.rows).then(|| FTable {
                    rows: a.rows,
                    cols: b.cols,
                    v: (0..a.rows * b.cols).map(|x| (0..a.cols).map(|k| a.v[x / b.cols * a.cols + k] * b.v[k * b.cols + x % b.cols]).sum()).collect(),
                    exact: a.exact && b.exact,
                });
                fresh!(multiply_matrix(pool.0[i].0, pool.0[j].0), e);
            }
            COp::Augment(i, j) => {
                let (i, j) = (at!(i), at!(j));
                let (a, b) = (&pool.0[i].1, &pool.0[j].1);
                let e = (a.rows == b.rows).then(|| {
                    let w = a.cols + b.cols;
                    FTable {
                        rows: a.rows,
                        cols: w,
                        v: (0..a.rows * w).map(|x| if x % w < a.cols { a.v[x / w * a.cols + x % w] } else { b.v[x / w * b.cols + x % w - a.cols] }).collect(),
                        exact: a.exact && b.exact,
                    }
                });
                fresh!(augment_with(pool.0[i].0, pool.0[j].0), e);
            }
            COp::Subset(i, r1, c1, r2, c2) => {
                let i = at!(i);
                let t = &pool.0[i].1;
                let (a, b, x, y) = (r1 as usize, c1 as usize, r2 as usize, c2 as usize);
                let e = (a <= x && b <= y && x < t.rows && y < t.cols).then(|| {
                    let w = y - b + 1;
                    FTable { rows: x - a + 1, cols: w, v: (0..(x - a + 1) * w).map(|k| t.v[(a + k / w) * t.cols + b + k % w]).collect(), exact: t.exact }
                });
                fresh!(subset(pool.0[i].0, r1, c1, r2, c2), e);
            }
            COp::Trace(i) => {
                let (p, t) = &pool.0[at!(i)];
                let got = trace(*p);
                if t.rows == t.cols {
                    let e: f64 = (0..t.rows).map(|k| t.v[k * t.cols + k]).sum();
                    ensure!(close(got, e, if t.exact { 0.0 } else { 1e-6 }, if t.exact { 0.0 } else { 1e-6 }), "{what}: {got}, expected {e}");
                } else {
                    ensure!(got.is_nan() || got == f64::MIN, "{what}: the trace of a {}x{} matrix is {got}", t.rows, t.cols);
                }
            }
            COp::Transpose(i) => {
                let i = at!(i);
                let t = &pool.0[i].1;
                let e = FTable { rows: t.cols, cols: t.rows, v: (0..t.v.len()).map(|x| t.v[x % t.rows * t.cols + x / t.rows]).collect(), exact: t.exact };
                fresh!(transpose(pool.0[i].0), Some(e));
            }
            COp::Invert(i) => {
                let i = at!(i);
                let (p, t) = &mut pool.0[i];
                let n = t.rows;
                if n != t.cols || n == 0 {
                    if n != t.cols {
                        let got = try_inplace_invert(*p);
                        ensure!(got != u32::MAX, "{what}: a {}x{} matrix was inverted", t.rows, t.cols);
                        refusals += 1;
                    }
                } else if t.exact && t.v.iter().all(|x| x.abs() <= 1000.0) {
                    let a: Vec<Vec<f64>> = (0..n).map(|r| t.v[r * n..(r + 1) * n].to_vec()).collect();
                    let zero_line = (0..n).any(|i| a[i].iter().all(|&x| x == 0.0) || a.iter().all(|r| r[i] == 0.0));
                    let det0 = n <= 4 && det_exact(&a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect::<Vec<_>>()) == 0;
                    if zero_line || det0 {
                        // on a copy: what is left of a refused matrix is not specified
                        let q = clone_double_matrix(*p);
                        let got = try_inplace_invert(q);
                        free_double_matrix(q);
                        ensure!(got <= 3, "{what}: a singular matrix was inverted (status {got})");
                        if n == 1 {
                            ensure!(got == 1, "{what}: status {got} for a zero 1x1 matrix, expected 1");
                        } else if n <= 4 {
                            ensure!(got == 0, "{what}: status {got} for a zero determinant, expected 0");
                        }
                        refusals += 1;
                    } else if let Some(inv) = invert_dense(&a) {
                        if norm(&a) * norm(&inv) < 1e4 {
                            let got = try_inplace_invert(*p);
                            ensure!(got == u32::MAX, "{what}: status {got} for an invertible matrix");
                            t.v = inv.concat();
                            t.exact = false;
                            inverted += 1;
                        }
                    }
                }
            }
            COp::Clone(i) => {
                let i = at!(i);
                let t = pool.0[i].1.clone();
                fresh!(clone_double_matrix(pool.0[i].0), Some(t));
            }
            COp::Free(i) => {
                let i = at!(i);
                let (p, _) = pool.0.swap_remove(i);
                free_double_matrix(p);
            }
        }
        most = most.max(pool.0.len());
        // nothing but the named matrix has changed
        for (k, (p, t)) in pool.0.iter().enumerate() {
            let (r, cc) = dims(*p);
            ensure!(r == t.rows && cc == t.cols, "{what}: matrix {k} is {r}x{cc}, expected {}x{}", t.rows, t.cols);
            for i in 0..t.rows {
                for j in 0..t.cols {
                    let got = index_double_matrix(*p, i as u32, j as u32);
                    let e = t.v[i * t.cols + j];
                    let tol = if t.exact { 0.0 } else { 1e-6 };
                    ensure!(close(got, e, tol, tol), "{what}: element ({i},{j}) of matrix {k} is {got}, expected {e}");
                }
            }
        }
        // stay within exact integers, and keep inexact values small
        pool.0.iter_mut().for_each(|(p, t)| {
            if t.v.iter().any(|x| x.abs() > if t.exact { 1e9 } else { 1e3 }) {
                let _ = inplace_scale(*p, 0.0);
                t.v.iter_mut().for_each(|x| *x = *x * 0.0);
            }
        });
    }
    let mut labels = vec![];
    if refusals > 0 {
        labels.push("refused call");
    }
    if inverted > 0 {
        labels.push("inverted");
    }
    ok(c.ops.len() >= 6 && most >= 2 && made >= 3, labels)
}
