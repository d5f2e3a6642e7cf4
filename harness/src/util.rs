//! Small things shared by the properties.

use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A floating-point number that survives JSON exactly, special values included.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct F(pub f64);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let t = String::deserialize(d)?;
        t.parse().map(F).map_err(serde::de::Error::custom)
    }
}
impl From<f64> for F {
    fn from(v: f64) -> F {
        F(v)
    }
}
pub fn fs(v: &[f64]) -> Vec<F> {
    v.iter().map(|&x| F(x)).collect()
}
pub fn raw(v: &[F]) -> Vec<f64> {
    v.iter().map(|x| x.0).collect()
}

pub fn same_float(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    same_float(a, b) || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Solves a dense linear system with full pivoting; None when it is singular or badly conditioned.
/// The second value is a bound on how much the solution amplifies errors of the right side.
pub fn solve_dense(a: &[Vec<f64>], b: &[f64]) -> Option<(Vec<f64>, f64)> {
    let inv = invert_dense(a)?;
    let n = b.len();
    let x: Vec<f64> = (0..n).map(|i| (0..n).map(|j| inv[i][j] * b[j]).sum()).collect();
    let amp = inv.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
    Some((x, amp))
}

/// Inverse by Gauss-Jordan with full pivoting; None when a pivot is tiny.
pub fn invert_dense(a: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = a.len();
    let mut m: Vec<Vec<f64>> = a.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        r.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
        r
    }).collect();
    let big = a.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
    let mut cols: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, -1.0);
        for i in k..n {
            for j in k..n {
                if m[i][j].abs() > best {
                    best = m[i][j].abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        if !(best > big * 1e-10) {
            return None;
        }
        m.swap(k, pi);
        if pj != k {
            for r in m.iter_mut() {
                r.swap(k, pj);
            }
            cols.swap(k, pj);
        }
        let p = m[k][k];
        for v in m[k].iter_mut() {
            *v /= p;
        }
        for i in 0..n {
            if i != k {
                let f = m[i][k];
                if f != 0.0 {
                    for j in 0..2 * n {
                        let t = m[k][j];
                        m[i][j] -= f * t;
                    }
                }
            }
        }
    }
    let mut out = vec![vec![0.0; n]; n];
    for k in 0..n {
        out[cols[k]] = m[k][n..].to_vec();
    }
    Some(out)
}

/// Largest row sum of magnitudes
pub fn norm(a: &[Vec<f64>]) -> f64 {
    a.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max)
}

/// The least limit up to `most` with which `solves` succeeds
pub fn least_limit(most: usize, solves: impl Fn(usize) -> bool) -> Option<usize> {
    let (mut a, mut b) = (0, most);
    if !solves(b) {
        return None;
    }
    while b - a > 1 {
        let c = (a + b) / 2;
        if solves(c) {
            b = c
        } else {
            a = c
        }
    }
    Some(b)
}
