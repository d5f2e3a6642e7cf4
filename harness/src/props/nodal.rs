//! C21 to C26: nodal analysis.

use super::expressions::mutate;
use super::scratch::*;
use crate::engine::*;
use crate::util::*;
use crate::{ensure, fail};
use neapolitan::flux_formulas::{constant_flux, normal_flux, observe_flux};
use neapolitan::modelling::element::ElementConstructor;
use neapolitan::modelling::{GenericElement, GenericNode, NodalAnalysisModel};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential, Matrix, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator, NodalAnalysisStudyResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::{Rc, Weak};
use std::str::FromStr;

// ------------------------------------------------------------------ networks

/// What an element does, by the components of the difference of its nodes
#[derive(Clone, Debug)]
pub enum Law {
    /// flux = G (Vin - Vout)
    Linear(Vec<Vec<f64>>),
    Constant(Vec<f64>),
    /// Vout - Vin
    Jump(Vec<f64>),
    /// flux = a d + b arctan d, by component
    Soft(f64, f64),
    /// the gain does not fit
    Wrong,
    /// not specified
    Open,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct El {
    kind: String,
    input: usize,
    output: usize,
    gain: Vec<F>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Net {
    model: String,
    nodes: usize,
    /// potential and whether it is fixed
    config: BTreeMap<usize, (Vec<F>, bool)>,
    els: Vec<El>,
}

/// The laws of the built-in elements
fn law(model: &str, e: &El) -> Law {
    let g = raw(&e.gain);
    let scalar = |x: f64| Law::Linear(vec![vec![x]]);
    match (model, e.kind.as_str(), g.len()) {
        ("dc_circuit", "resistor", 1) => scalar(1.0 / g[0]),
        ("dc_circuit", "resistor", 0) => Law::Wrong,
        ("dc_circuit", "resistor", _) => Law::Open,
        ("dc_circuit", "voltage_source", 1) | ("heat_transfer", "temperature_delta", 1) => Law::Jump(g),
        ("dc_circuit", "current_source", 1) | ("heat_transfer", "heat_flux", 1) => Law::Constant(g),
        ("heat_transfer", "conductor", 1) | ("heat_transfer", "convection_interface", 1) => scalar(g[0]),
        ("heat_transfer", "conductor", 2) => scalar(g[1] / g[0]),
        _ => Law::Wrong,
    }
}

/// Which nodes sources drive, in the order of the elements; None when a source meets two fixed nodes
fn driven(net: &Net, laws: &[Law]) -> Option<Vec<bool>> {
    let mut fixed: Vec<bool> = (0..net.nodes).map(|i| net.config.get(&i).is_some_and(|c| c.1)).collect();
    for (e, l) in net.els.iter().zip(laws) {
        if let Law::Jump(_) = l {
            if !fixed[e.output] {
                fixed[e.output] = true;
            } else if !fixed[e.input] {
                fixed[e.input] = true;
            } else {
                return None;
            }
        }
    }
    Some(fixed)
}

/// Potentials of all nodes by the laws; None when they are not determined, or badly.
/// Soft elements count as linear with the given slopes and offsets.
fn reference(net: &Net, laws: &[Law], dim: usize) -> Option<Vec<Vec<f64>>> {
    let fixed = |i: usize| net.config.get(&i).filter(|c| c.1).map(|c| raw(&c.0));
    let mut at = vec![usize::MAX; net.nodes];
    let mut n = 0;
    for (i, a) in at.iter_mut().enumerate() {
        if fixed(i).is_none() {
            *a = n;
            n += dim;
        }
    }
    let mut jump_at = vec![usize::MAX; laws.len()];
    for (k, l) in laws.iter().enumerate() {
        if let Law::Jump(_) = l {
            jump_at[k] = n;
            n += dim;
        }
    }
    if n == 0 {
        return Some((0..net.nodes).map(|i| fixed(i).unwrap()).collect());
    }
    let mut a = vec![vec![0.0; n]; n];
    let mut b = vec![0.0; n];
    for (k, (e, l)) in net.els.iter().zip(laws).enumerate() {
        // what the flux of component r adds to the balance of a node
        for (node, sign) in [(e.input, -1.0), (e.output, 1.0)] {
            if at[node] == usize::MAX {
                continue;
            }
            for r in 0..dim {
                let row = at[node] + r;
                match l {
                    Law::Constant(c) => b[row] -= sign * c[r],
                    Law::Jump(_) => a[row][jump_at[k] + r] += sign,
                    Law::Linear(g) => {
                        for c in 0..dim {
                            for (end, s2) in [(e.input, 1.0), (e.output, -1.0)] {
                                match fixed(end) {
                                    Some(v) => b[row] -= sign * s2 * g[r][c] * v[c],
                                    None => a[row][at[end] + c] += sign * s2 * g[r][c],
                                }
                            }
                        }
                    }
                    _ => return None,
                }
            }
        }
        if let Law::Jump(d) = l {
            for r in 0..dim {
                let row = jump_at[k] + r;
                b[row] = d[r];
                for (end, s2) in [(e.output, 1.0), (e.input, -1.0)] {
                    match fixed(end) {
                        Some(v) => b[row] -= s2 * v[r],
                        None => a[row][at[end] + r] += s2,
                    }
                }
            }
        }
    }
    if a.iter().flatten().chain(&b).any(|x| !x.is_finite()) {
        return None;
    }
    let inv = invert_dense(&a)?;
    if norm(&inv) * norm(&a) > 1e6 || norm(&inv) > 1e4 {
        return None;
    }
    let x: Vec<f64> = (0..n).map(|i| (0..n).map(|j| inv[i][j] * b[j]).sum()).collect();
    Some((0..net.nodes).map(|i| fixed(i).unwrap_or_else(|| x[at[i]..at[i] + dim].to_vec())).collect())
}

/// The largest of the potentials and of the numbers that are added up to balances
fn largest(net: &Net, laws: &[Law], v: &[Vec<f64>]) -> f64 {
    let mut m = v.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    for (e, l) in net.els.iter().zip(laws) {
        let ends = v[e.input].iter().chain(&v[e.output]).fold(1.0f64, |m, x| m.max(x.abs()));
        m = m.max(match l {
            Law::Linear(g) => norm(g) * ends,
            Law::Constant(c) => c.iter().fold(0.0, |m: f64, x| m.max(x.abs())),
            _ => 0.0,
        });
    }
    m
}

struct Answer {
    nodes: Vec<Vec<f64>>,
    els: Vec<Vec<f64>>,
}

/// The laws determine the answer, and well
fn determined(net: &Net) -> bool {
    let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
    flawed(net).is_none() && reference(net, &laws, 1).is_some()
}
/// No numbers of extreme size, no infinite conductance
fn tame(net: &Net) -> bool {
    let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
    net.els.iter().all(|e| e.gain.iter().all(|g| g.0 == 0.0 || g.0.abs() < 1e6 && g.0.abs() > 1e-6)) && net.config.values().all(|c| c.0.iter().all(|p| p.0.abs() < 1e6)) && laws.iter().all(|l| !matches!(l, Law::Linear(g) if !g[0][0].is_finite()))
}
/// Reads a result, which has every node and element once, all of them finite
fn read_answer(v: &Value, net: &Net, dim: usize, what: &dyn std::fmt::Display) -> Result<Answer, Failure> {
    let vector = |v: &Value, n: &str| -> Result<Vec<f64>, Failure> {
        let Some(a) = v.as_array() else { fail!("{what}: {n} is reported as {v}") };
        ensure!(a.len() == dim, "{what}: {n} is reported as {v}, with {dim} components due");
        a.iter().map(|x| x.as_f64().ok_or_else(|| Failure::from(format!("{what}: {n} is reported as {v}")))).collect()
    };
    let (Some(nodes), Some(els)) = (v["nodes"].as_object(), v["elements"].as_object()) else { fail!("{what}: the result is {v}") };
    ensure!(nodes.len() == net.nodes, "{what}: {} nodes are reported of {}: {v}", nodes.len(), net.nodes);
    ensure!(els.len() == net.els.len(), "{what}: {} elements are reported of {}: {v}", els.len(), net.els.len());
    let mut a = Answer { nodes: vec![], els: vec![] };
    for i in 0..net.nodes {
        let Some(p) = nodes.get(&i.to_string()) else { fail!("{what}: node {i} is not reported: {v}") };
        a.nodes.push(vector(p, &format!("node {i}"))?);
    }
    for (i, e) in net.els.iter().enumerate() {
        let k = format!("{}.{i}", e.kind);
        let Some(p) = els.get(&k) else { fail!("{what}: the element {k} is not reported: {v}") };
        a.els.push(vector(p, &k)?);
    }
    Ok(a)
}
fn result_value(r: &NodalAnalysisStudyResult) -> Value {
    serde_json::to_value(r).expect("a result cannot be written as JSON")
}

/// The laws of the elements, the balances of the nodes and the fixed potentials
fn obeys(net: &Net, laws: &[Law], a: &Answer, dim: usize, margin: f64, what: &dyn std::fmt::Display) -> Result<(), Failure> {
    let shown = || format!("{what}: nodes {:?}, elements {:?}", a.nodes, a.els);
    for (i, (p, f)) in &net.config {
        if *f {
            ensure!(a.nodes[*i].iter().zip(p).all(|(x, y)| *x == y.0), "{}: the fixed node {i} has not its potential {p:?}", shown());
        }
    }
    for (k, (e, l)) in net.els.iter().zip(laws).enumerate() {
        let d: Vec<f64> = (0..dim).map(|c| a.nodes[e.input][c] - a.nodes[e.output][c]).collect();
        let size: f64 = (0..dim).map(|c| a.nodes[e.input][c].abs() + a.nodes[e.output][c].abs()).sum();
        for r in 0..dim {
            let got = a.els[k][r];
            match l {
                Law::Linear(g) => {
                    let want: f64 = (0..dim).map(|c| g[r][c] * d[c]).sum();
                    let scale: f64 = g[r].iter().map(|x| x.abs()).sum::<f64>() * size;
                    ensure!((got - want).abs() <= 1e-12 * scale + 1e-300, "{}: {} {k} has the flux {got:?}, its law gives {want:?}", shown(), e.kind);
                }
                Law::Soft(x, y) => {
                    let want = x * d[r] + y * d[r].atan();
                    ensure!((got - want).abs() <= 1e-12 * (x.abs() + y.abs()) * (size + 1.0), "{}: {} {k} has the flux {got:?}, its law gives {want:?}", shown(), e.kind);
                }
                Law::Constant(c) => ensure!(got == c[r], "{}: {} {k} has the flux {got:?} instead of {:?}", shown(), e.kind, c[r]),
                Law::Jump(j) => ensure!((-d[r] - j[r]).abs() <= 1e-12 * (size + j[r].abs()), "{}: across {} {k} the potential rises by {:?} instead of {:?}", shown(), e.kind, -d[r], j[r]),
                _ => {}
            }
        }
    }
    for i in 0..net.nodes {
        if net.config.get(&i).is_some_and(|c| c.1) {
            continue;
        }
        for r in 0..dim {
            let mut sum = 0.0;
            let mut size = 0.0;
            for (k, e) in net.els.iter().enumerate() {
                if e.output == i {
                    sum += a.els[k][r];
                    size += a.els[k][r].abs();
                }
                if e.input == i {
                    sum -= a.els[k][r];
                    size += a.els[k][r].abs();
                }
            }
            ensure!(sum.abs() <= margin * (1.0 + 1e-9) + 1e-10 * size, "{}: node {i} is out of balance by {sum:e} (margin {margin:e})", shown());
        }
    }
    Ok(())
}

fn near(a: &[Vec<f64>], want: &[Vec<f64>], margin: f64, what: &dyn std::fmt::Display) -> Result<(), Failure> {
    let size = want.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    for (i, (p, q)) in a.iter().zip(want).enumerate() {
        for (x, y) in p.iter().zip(q) {
            ensure!((x - y).abs() <= 3.0 * margin + 1e-6 * size, "{what}: node {i} has the potential {x:?}, the laws give {y:?}");
        }
    }
    Ok(())
}

fn build(net: &Net, b: NodalAnalysisStudyBuilder) -> anyhow::Result<NodalAnalysisStudyBuilder> {
    let mut b = b.add_nodes(net.nodes);
    for (i, (p, f)) in &net.config {
        b = b.configure_node(*i, raw(p), *f, None);
    }
    for e in &net.els {
        b = b.add_element(&e.kind, e.input, e.output, raw(&e.gain))?;
    }
    Ok(b)
}

const MODELS: [&str; 2] = ["dc_circuit", "heat_transfer"];

fn gen_el(s: &mut Src, heat: bool, source: bool, input: usize, output: usize) -> El {
    let positive = |s: &mut Src| match s.below(4) {
        0 => s.usize(1, 10) as f64,
        1 => s.usize(1, 99) as f64 / 10.0,
        2 => s.usize(1, 50) as f64 * 10.0,
        _ => s.usize(1, 999) as f64 / 100.0,
    };
    let (kind, gain) = if source {
        (if heat { "temperature_delta" } else { "voltage_source" }, vec![s.decimal(30, 1)])
    } else if s.chance(1, 5) {
        (if heat { "heat_flux" } else { "current_source" }, vec![s.decimal(10, 1)])
    } else if !heat {
        ("resistor", vec![positive(s)])
    } else {
        match s.below(3) {
            0 => ("convection_interface", vec![positive(s)]),
            1 => ("conductor", vec![positive(s)]),
            _ => ("conductor", vec![positive(s), positive(s)]),
        }
    };
    El { kind: kind.into(), input, output, gain: fs(&gain) }
}

/// A connected network; most of them can be solved
fn gen_net(s: &mut Src, heat: bool, largest: usize) -> Net {
    let largest = s.tail(largest, 2 * largest);
    let n = s.usize(1, 4) + s.size(3, largest.saturating_sub(4));
    let mut config = BTreeMap::new();
    let mut label: Vec<usize> = (0..n).collect();
    s.shuffle(&mut label);
    let fixed = 1 + s.weighted(&[6, 3, 1]);
    for k in 0..n {
        if k < fixed {
            config.insert(label[k], (vec![F(if s.chance(1, 2) { 0.0 } else { s.decimal(40, 1) })], true));
        } else if s.chance(1, 8) {
            config.insert(label[k], (vec![F(s.decimal(40, 1))], false));
        }
    }
    let mut els = vec![];
    let many = s.chance(1, 3);
    // every node hangs on an earlier one
    for k in 1..n {
        let other = label[if s.chance(1, 3) { k - 1 } else { s.usize(0, k - 1) }];
        let (p, q) = if s.chance(1, 2) { (other, label[k]) } else { (label[k], other) };
        let source = k >= fixed && s.chance(if many { 2 } else { 1 }, 4);
        let mut e = gen_el(s, heat, source, p, q);
        if ["heat_flux", "current_source"].contains(&e.kind.as_str()) {
            // held by something else
            e.kind = if heat { "conductor".into() } else { "resistor".into() };
            e.gain = vec![F(2.0)];
        }
        els.push(e);
    }
    if n > 1 {
        for _ in 0..s.usize(0, n) {
            let (p, q) = (s.usize(0, n - 1), s.usize(0, n - 1));
            if p != q {
                els.push(gen_el(s, heat, false, p, q));
            }
        }
        if s.chance(1, 6) {
            let (p, q) = (s.usize(0, n - 1), s.usize(0, n - 1));
            if p != q {
                els.push(gen_el(s, heat, true, p, q));
            }
        }
    }
    s.shuffle(&mut els);
    Net { model: MODELS[heat as usize].into(), nodes: n, config, els }
}
/// Many nodes, all but a few fixed
fn gen_wide_net(s: &mut Src, heat: bool) -> Net {
    let n = s.usize(30, 700);
    let free: Vec<usize> = (0..s.usize(1, 4)).map(|_| s.usize(0, n - 1)).collect();
    let mut config = BTreeMap::new();
    let a = s.decimal(9, 1);
    for i in (0..n).filter(|i| !free.contains(i)) {
        config.insert(i, (vec![F(a + (i % 97) as f64)], true));
    }
    let mut els = vec![];
    for (k, f) in free.iter().enumerate() {
        for _ in 0..s.usize(1, 3) {
            let other = if k > 0 && s.chance(1, 3) { free[k - 1] } else { s.usize(0, n - 1) };
            if other != *f {
                let (p, q) = if s.chance(1, 2) { (other, *f) } else { (*f, other) };
                let source = s.chance(1, 8);
                els.push(gen_el(s, heat, source, p, q));
            }
        }
    }
    for _ in 0..s.usize(0, 40) {
        let (p, q) = (s.usize(0, n - 1), s.usize(0, n - 1));
        if p != q {
            els.push(gen_el(s, heat, false, p, q));
        }
    }
    s.shuffle(&mut els);
    Net { model: MODELS[heat as usize].into(), nodes: n, config, els }
}
/// Elements of unusual size or direction, and tiny or large potentials
fn unusual(s: &mut Src, net: &mut Net) {
    let all = s.chance(1, 2);
    let k = 10f64.powi(s.int(-9, 9) as i32);
    for e in net.els.iter_mut() {
        let source = ["voltage_source", "temperature_delta"].contains(&e.kind.as_str());
        if all || s.chance(1, 3) {
            let k = if all { k } else { 10f64.powi(s.int(-6, 6) as i32) };
            match s.below(4) {
                0 if !source => e.gain.iter_mut().for_each(|g| *g = F(-g.0)),
                1 if e.gain.len() == 2 => e.gain.iter_mut().for_each(|g| *g = F(g.0 * k)),
                1 if all => e.gain[0] = F(e.gain[0].0 * k),
                2 => {
                    let i = s.usize(0, e.gain.len() - 1);
                    e.gain[i] = F(e.gain[i].0 * k);
                }
                _ => {}
            }
        }
    }
    if s.chance(1, 3) {
        let k = 10f64.powi(s.int(-9, 4) as i32);
        for c in net.config.values_mut() {
            c.0.iter_mut().for_each(|v| *v = F(v.0 * k));
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NetCase {
    net: Net,
    /// another order of the elements
    order: Vec<usize>,
    margin: F,
    limit: usize,
}
fn gen_net_case(s: &mut Src, heat: bool) -> NetCase {
    let mut net = if s.chance(1, 400) { gen_wide_net(s, heat) } else { gen_net(s, heat, 12) };
    if s.chance(1, 10) {
        unusual(s, &mut net);
    }
    let mut order: Vec<usize> = (0..net.els.len()).collect();
    s.shuffle(&mut order);
    NetCase { net, order, margin: F(*s.pick(&[1e-2, 1e-4, 1e-6, 1e-8])), limit: s.usize(20, 100) }
}

fn check_net(c: &NetCase) -> Checked {
    let laws: Vec<Law> = c.net.els.iter().map(|e| law(&c.net.model, e)).collect();
    let want = reference(&c.net, &laws, 1);
    let mut other = c.net.clone();
    other.els = c.order.iter().map(|i| c.net.els[*i].clone()).collect();
    let mut solved = 0;
    let mut labels = vec![];
    for net in [&c.net, &c.net, &other] {
        let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
        let fixed = driven(net, &laws);
        let b = match NodalAnalysisStudyBuilder::new(net.model.clone(), None).and_then(|b| build(net, b)) {
            Ok(b) => b,
            Err(e) => fail!("{net:?} cannot be built: {e}"),
        };
        match b.run_study(c.margin.0, c.limit) {
            Ok(r) => {
                let a = read_answer(&result_value(&r), net, 1, &format!("{net:?}"))?;
                obeys(net, &laws, &a, 1, c.margin.0, &format!("{net:?}"))?;
                if let Some(w) = &want {
                    near(&a.nodes, w, c.margin.0, &format!("{net:?}"))?;
                }
                ensure!(fixed.is_some(), "{net:?}: a source between two fixed nodes is accepted");
                solved += 1;
            }
            Err(e) => ensure!(want.as_ref().is_none_or(|w| largest(net, &laws, w) * 1e-12 > c.margin.0) || fixed.is_none(), "{net:?} is not solved: {e}; the laws give {want:?}"),
        }
    }
    let jumps = laws.iter().filter(|l| matches!(l, Law::Jump(_))).count();
    labels.push(if solved == 0 { "not solved" } else if jumps >= 2 { "two or more sources" } else if jumps == 1 { "one source" } else { "no source" });
    let free = c.net.nodes - c.net.config.values().filter(|c| c.1).count();
    ok(solved > 0 && free >= 2 && c.net.els.len() >= 3, labels)
}

pub struct C21;
impl Prop for C21 {
    type Case = NetCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "Connected circuits of 1 to 12 nodes, one to three of them fixed, with resistors, voltage sources and current sources in random directions, sources in chains and on either side of fixed nodes, loops and parallel elements, numbered and ordered at random, some with gains that are negative or of unusual size (1e-9 to 1e9), rarely with up to 700 nodes of which at most four are not fixed; each run twice in the given and once in another order of elements, under chosen hash orders. Every reported result is put into the laws of its elements and the balance of its nodes, and compared with an independent modified nodal analysis; well-conditioned circuits in which no source meets two fixed nodes have to be solved. Non-trivial: solved, with two nodes that are not fixed and three elements.";
    const QUICK: u64 = 500_000;
    const ASSUMPTIONS: &'static [&'static str] = &["sources are taken in the order of the elements: one that meets two nodes fixed by the model or by earlier sources is an error by documentation", "potentials are compared to three times the precision asked for", "a precision below 1e-12 of the largest flux or potential need not be reached"];
    fn generate(s: &mut Src) -> NetCase {
        gen_net_case(s, false)
    }
    fn check(c: &NetCase) -> Checked {
        check_net(c)
    }
}
pub struct C22;
impl Prop for C22 {
    type Case = NetCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "Connected heat-transfer models of 1 to 12 nodes, one to three of them fixed, with conductors in both forms, convection interfaces, temperature differences and heat fluxes in random directions, chains of temperature differences, loops and parallel elements, numbered and ordered at random, some with gains that are negative or of unusual size (1e-9 to 1e9), rarely with up to 700 nodes of which at most four are not fixed; each run twice in the given and once in another order of elements, under chosen hash orders. Every reported result is put into the laws of its elements and the balance of its nodes, and compared with an independent modified nodal analysis; well-conditioned models in which no temperature difference meets two fixed nodes have to be solved. Non-trivial: solved, with two nodes that are not fixed and three elements.";
    const QUICK: u64 = 500_000;
    const ASSUMPTIONS: &'static [&'static str] = &["temperature differences are taken in the order of the elements: one that meets two nodes fixed by the model or by earlier ones is an error by documentation", "temperatures are compared to three times the precision asked for", "a precision below 1e-12 of the largest flux or temperature need not be reached"];
    fn generate(s: &mut Src) -> NetCase {
        gen_net_case(s, true)
    }
    fn check(c: &NetCase) -> Checked {
        check_net(c)
    }
}

// ------------------------------------------------------------------ C23

fn to_value(net: &Net) -> Value {
    let mut config = Map::new();
    for (i, (p, f)) in &net.config {
        config.insert(i.to_string(), json!({"potential": raw(p), "is_locked": f, "metadata": null}));
    }
    let els: Vec<Value> = net.els.iter().map(|e| json!({"element_type": e.kind, "input": e.input, "output": e.output, "gain": raw(&e.gain)})).collect();
    json!({"model_type": net.model, "nodes": net.nodes, "configuration": config, "elements": els})
}

/// The model that a text is, by the format; None if it is none
fn from_value(v: &Value) -> Option<Net> {
    let numbers = |v: &Value| -> Option<Vec<F>> { v.as_array()?.iter().map(|x| x.as_f64().map(F)).collect() };
    let whole = |v: &Value| -> Option<usize> { v.as_u64().map(|x| x as usize) };
    let o = v.as_object()?;
    let mut config = BTreeMap::new();
    for (k, c) in o.get("configuration")?.as_object()? {
        let i: usize = k.parse().ok().filter(|i: &usize| i.to_string() == *k)?;
        let c = c.as_object()?;
        match c.get("metadata") {
            None | Some(Value::Null) => {}
            Some(Value::Object(m)) => {
                if !m.values().all(|x| x.is_number()) {
                    return None;
                }
            }
            _ => return None,
        }
        config.insert(i, (numbers(c.get("potential")?)?, c.get("is_locked")?.as_bool()?));
    }
    let mut els = vec![];
    for e in o.get("elements")?.as_array()? {
        let e = e.as_object()?;
        els.push(El { kind: e.get("element_type")?.as_str()?.into(), input: whole(e.get("input")?)?, output: whole(e.get("output")?)?, gain: numbers(e.get("gain")?)? });
    }
    Some(Net { model: o.get("model_type")?.as_str()?.into(), nodes: whole(o.get("nodes")?)?, config, els })
}

/// Why a study of the model has to fail, if it has to
fn flawed(net: &Net) -> Option<&'static str> {
    if !MODELS.contains(&net.model.as_str()) {
        return Some("unknown model type");
    }
    if net.config.keys().any(|i| *i >= net.nodes) {
        return Some("configuration of a node that does not exist");
    }
    if net.config.values().any(|c| c.0.len() != 1) {
        return Some("potential with the wrong number of components");
    }
    if net.els.iter().any(|e| e.input >= net.nodes || e.output >= net.nodes) {
        return Some("element at a node that does not exist");
    }
    let kinds: &[&str] = if net.model == "dc_circuit" { &["resistor", "voltage_source", "current_source"] } else { &["conductor", "convection_interface", "temperature_delta", "heat_flux"] };
    if net.els.iter().any(|e| !kinds.contains(&e.kind.as_str())) {
        return Some("unknown element type");
    }
    let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
    if laws.iter().any(|l| matches!(l, Law::Wrong)) {
        return Some("gain with the wrong number of components");
    }
    match driven(net, &laws) {
        None => return Some("source between two fixed nodes"),
        Some(_) => {
            // sources that close a circle
            let mut up: Vec<usize> = (0..net.nodes).collect();
            fn top(up: &[usize], mut i: usize) -> usize {
                while up[i] != i {
                    i = up[i];
                }
                i
            }
            for (e, l) in net.els.iter().zip(&laws) {
                if let Law::Jump(_) = l {
                    let (p, q) = (top(&up, e.input), top(&up, e.output));
                    if p == q {
                        return Some("circular sources");
                    }
                    up[p] = q;
                }
            }
        }
    }
    None
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C23Case {
    text: String,
    margin: F,
    limit: usize,
}
pub struct C23;

fn damage(s: &mut Src, v: &mut Value) {
    // anywhere in the tree, or in one of the places that matter
    match s.below(12) {
        0 => {
            let k = s.pick(&["model_type", "nodes", "configuration", "elements"]);
            v.as_object_mut().unwrap().remove(*k);
        }
        1 => v["model_type"] = json!(s.pick(&["", "ssdc_circuit", "DC_CIRCUIT", "heat_transfer", "dc_circuit", "resistor", "dc_circuit "])),
        2 => v["nodes"] = s.pick(&[json!(0), json!(1), json!(2), json!(40), json!(-1), json!(2.5), json!(2.0), json!("3"), json!(null), json!([])]).clone(),
        3 => {
            let e = json!({"potential": s.pick(&[json!([]), json!([1.0, 2.0]), json!(["1"]), json!(1.0), json!([null]), json!([1e308]), json!([3])]).clone(), "is_locked": s.pick(&[json!(true), json!(false), json!(0), json!("true")]).clone(), "metadata": s.pick(&[json!(null), json!({}), json!({"a": 1}), json!({"a": "1"}), json!([]), json!(1)]).clone()});
            let k = s.pick(&["0", "1", "99", "-1", "x", "", "00", "1.0", "18446744073709551616", "+1"]).to_string();
            if let Some(m) = v["configuration"].as_object_mut() {
                m.insert(k, e);
            }
        }
        4 => v["configuration"] = s.pick(&[json!({}), json!([]), json!(null), json!("x"), json!(7)]).clone(),
        5 => v["elements"] = s.pick(&[json!([]), json!({}), json!(null), json!("x"), json!([null]), json!([[]])]).clone(),
        6 => {
            // everything fixed
            if let Some(n) = v["nodes"].as_u64().filter(|_| v["configuration"].is_object()) {
                for i in 0..n.min(40) {
                    if s.chance(3, 4) {
                        v["configuration"][i.to_string()] = json!({"potential": [s.decimal(9, 1)], "is_locked": true, "metadata": null});
                    }
                }
            }
        }
        7 => {
            // nothing fixed
            if let Some(m) = v["configuration"].as_object_mut() {
                for (_, c) in m.iter_mut().filter(|c| c.1.is_object()) {
                    c["is_locked"] = json!(false);
                }
            }
        }
        _ => {
            let n = v["nodes"].as_u64().unwrap_or(2);
            let Some(els) = v["elements"].as_array_mut() else { return };
            if els.is_empty() {
                return;
            }
            let i = s.below(els.len() as u64) as usize;
            if !els[i].is_object() {
                return;
            }
            match s.below(12) {
                0 => {
                    let k = *s.pick(&["element_type", "input", "output", "gain"]);
                    els[i].as_object_mut().unwrap().remove(k);
                }
                1 => els[i]["element_type"] = json!(s.pick(&["", "Resistor", "capacitor", "voltage_source", "temperature_delta", "conductor", "resistor", "current_source"])),
                2 => els[i]["input"] = s.pick(&[json!(n), json!(n + 1), json!(-1), json!(0.5), json!("0"), json!(null), json!(u64::MAX)]).clone(),
                3 => els[i]["output"] = s.pick(&[json!(n), json!(n + 1), json!(-1), json!(0.5), json!("0"), json!(null), json!(u64::MAX)]).clone(),
                4 => els[i]["output"] = els[i]["input"].clone(),
                5 | 6 => els[i]["gain"] = s.pick(&[json!([]), json!([0.0]), json!([-0.0]), json!([0]), json!([1.0, 2.0]), json!([0.0, 1.0]), json!([1.0, 0.0]), json!([0.0, 0.0]), json!([1.0, 2.0, 3.0]), json!([1e308]), json!([-1e308]), json!([1e-308]), json!([5e-324]), json!(["1"]), json!([null]), json!(1.0), json!([-2.0])]).clone(),
                7 | 8 => {
                    // one more source, anywhere
                    let heat = v_is_heat(&els[i]);
                    let (p, q) = (s.below(n.max(1)), s.below(n.max(1)));
                    let e = json!({"element_type": if heat { "temperature_delta" } else { "voltage_source" }, "input": p, "output": q, "gain": [s.decimal(9, 1)]});
                    let at = s.usize(0, els.len());
                    els.insert(at, e);
                }
                9 => {
                    let e = els[i].clone();
                    els.push(e);
                }
                10 => {
                    els.remove(i);
                }
                _ => {
                    els[i]["gain"] = json!([0.0]);
                    els[i]["extra"] = json!(null);
                }
            }
        }
    }
}
fn v_is_heat(e: &Value) -> bool {
    e["element_type"].as_str().is_some_and(|t| ["conductor", "convection_interface", "temperature_delta", "heat_flux"].contains(&t))
}

impl Prop for C23 {
    type Case = C23Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "Texts of models: good ones with one to three fields removed, mistyped or out of range (unknown types, nodes that do not exist, potentials and gains of the wrong length, gains of zero and of extreme size, everything or nothing fixed, further sources anywhere), good ones with characters changed, and good ones; run with good and bad precisions and limits. A validator of the harness says whether the text is a model and whether a study of it has to fail; results that are given are finite and obey the laws. Non-trivial: the text is no model, or a study of it has to fail or fails.";
    const QUICK: u64 = 500_000;
    const ASSUMPTIONS: &'static [&'static str] = &["a resistor with more than one gain value is not judged", "models of more than 200 nodes are not run", "results of badly conditioned models are only checked for finite numbers"];

    fn generate(s: &mut Src) -> C23Case {
        let heat = s.chance(1, 2);
        let net = gen_net(s, heat, 6);
        let mut v = to_value(&net);
        let text = match s.below(8) {
            0 => mutate(s, &v.to_string()),
            1 => v.to_string(),
            _ => {
                for _ in 0..s.usize(1, 3) {
                    damage(s, &mut v);
                    if !v.is_object() {
                        break;
                    }
                }
                v.to_string()
            }
        };
        let margin = match s.below(10) {
            0 => *s.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e300, -0.0]),
            _ => *s.pick(&[1e-2, 1e-4, 1e-6]),
        };
        let limit = if s.chance(1, 12) { s.usize(0, 1) } else { s.usize(2, 60) };
        C23Case { text, margin: F(margin), limit }
    }

    fn check(c: &C23Case) -> Checked {
        let what = format!("{} with precision {:?} and limit {}", c.text, c.margin.0, c.limit);
        let parsed = NodalAnalysisModel::from_str(&c.text);
        let value: Option<Value> = serde_json::from_str(&c.text).ok();
        // doubled names are no business of this check
        let meant = value.as_ref().and_then(from_value);
        let again: Result<NodalAnalysisModel, _> = serde_json::from_str(&c.text);
        ensure!(parsed.is_ok() == again.is_ok(), "{}: read by from_str: {:?}, as JSON: {:?}", c.text, parsed.is_ok(), again.is_ok());
        let model = match (parsed, &meant) {
            (Ok(m), Some(_)) => m,
            (Ok(_), None) => fail!("{}: no model, and read as one", c.text),
            (Err(e), Some(_)) => {
                ensure!(e.to_string().contains("duplicate"), "{}: a model, and refused: {e}", c.text);
                return ok(false, vec!["doubled names"]);
            }
            (Err(_), None) => return ok(true, vec!["no model"]),
        };
        let net = meant.unwrap();
        if net.nodes > 200 {
            return ok(false, vec!["too large"]);
        }
        let flaw = flawed(&net).or(if !(c.margin.0 > 0.0) || c.limit == 0 { Some("bad precision or limit") } else { None });
        match NodalAnalysisStudyBuilder::from_model_with_default_config(model).run_study(c.margin.0, c.limit) {
            Ok(r) => {
                if let Some(f) = flaw {
                    fail!("{what}: {f}, and a result is given: {}", result_value(&r));
                }
                // a number that is not finite is written as null
                let a = read_answer(&result_value(&r), &net, 1, &what)?;
                let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
                if tame(&net) {
                    obeys(&net, &laws, &a, 1, c.margin.0, &what)?;
                }
                ok(false, vec!["solved"])
            }
            Err(_) => ok(true, vec![flaw.unwrap_or("not solvable")]),
        }
    }
}

// ------------------------------------------------------------------ C24

type Meta = Option<BTreeMap<String, F>>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum BOp {
    Nodes(usize),
    Configure(usize, Vec<F>, bool, Meta),
    Element(El),
    Save,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C24Case {
    model: String,
    ops: Vec<BOp>,
    /// made from a network that can be run
    runs: bool,
}
pub struct C24;

/// What was built
#[derive(Clone, Debug, Default)]
struct Built {
    model: String,
    nodes: usize,
    config: BTreeMap<usize, (Vec<F>, bool, Meta)>,
    els: Vec<El>,
}

fn units_apart(a: f64, b: f64) -> u64 {
    let key = |x: f64| {
        let i = x.to_bits() as i64;
        if i < 0 { i64::MIN.wrapping_sub(i) } else { i }
    };
    key(a).abs_diff(key(b))
}
/// Reading decimal text may miss the nearest number by some units in the last place when it has many digits
fn same_number(a: f64, b: f64, exact: bool) -> bool {
    // few digits and a power of ten that is exact
    let short = |x: f64| {
        let t = format!("{x:e}");
        let (m, e) = t.trim_start_matches('-').split_once('e').unwrap();
        let digits = m.chars().filter(|c| *c != '.').count() as i32;
        x.abs() < 1e14 && digits <= 15 && (e.parse::<i32>().unwrap() - digits + 1).abs() <= 22
    };
    if exact || short(a) { a.to_bits() == b.to_bits() || a == 0.0 && b == 0.0 } else { units_apart(a, b) <= 4 }
}

/// The text stands for the model
fn says(text: &str, m: &Built, exact: bool, what: &str) -> Result<(), Failure> {
    let Some(v) = super::json::read(text) else { fail!("{what}: no JSON: {text}") };
    let bad = |part: &str| -> Result<(), Failure> { Err(Failure::from(format!("{what}: {part} of {text} differ from {m:?}"))) };
    let numbers = |v: Option<&super::json::Js>, want: &[F]| v.and_then(|v| v.list()).is_some_and(|l| l.len() == want.len() && l.iter().zip(want).all(|(x, y)| x.float().is_some_and(|x| same_number(y.0, x, exact))));
    if v.get("model_type").and_then(|t| t.text()) != Some(&m.model) {
        return bad("the model type");
    }
    if v.get("nodes").and_then(|t| t.whole()) != Some(m.nodes) {
        return bad("the nodes");
    }
    let Some(c) = v.get("configuration").and_then(|c| c.map()) else { return bad("the configuration") };
    if c.len() != m.config.len() {
        return bad("the configuration");
    }
    for (i, (p, f, meta)) in &m.config {
        let Some(e) = c.iter().find(|x| x.0 == i.to_string()).map(|x| &x.1) else { return bad("the configuration") };
        let meta_same = match (e.get("metadata"), meta) {
            (None | Some(super::json::Js::Null), None) => true,
            (Some(super::json::Js::Map(x)), Some(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| v.float().is_some_and(|x| same_number(w.0, x, exact)))),
            _ => false,
        };
        if !numbers(e.get("potential"), p) || e.get("is_locked").and_then(|b| b.bool()) != Some(*f) || !meta_same {
            return bad("the configuration");
        }
    }
    let Some(l) = v.get("elements").and_then(|c| c.list()) else { return bad("the elements") };
    if l.len() != m.els.len() {
        return bad("the elements");
    }
    for (e, w) in l.iter().zip(&m.els) {
        if e.get("element_type").and_then(|t| t.text()) != Some(&w.kind) || e.get("input").and_then(|t| t.whole()) != Some(w.input) || e.get("output").and_then(|t| t.whole()) != Some(w.output) || !numbers(e.get("gain"), &w.gain) {
            return bad("the elements");
        }
    }
    Ok(())
}

fn gen_number(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => 0.0,
        1 => *s.pick(&[-0.0, 0.1, 1e22, 1e21, 1e-7, 9007199254740993.0, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 123456789.12345679]),
        2 => {
            let v = f64::from_bits(s.bits());
            if v.is_finite() { v } else { 2.5 }
        }
        3 => 1.0 / s.usize(1, 50) as f64,
        4 => s.int(-1000, 1000) as f64,
        _ => s.decimal(100, 2),
    }
}
fn gen_word(s: &mut Src) -> String {
    (0..s.usize(0, 6)).map(|_| *s.pick(&['a', 'b', 'R', '_', '1', '.', ' ', '"', '\\', '\n', '\t', '/', '\u{1}', 'é', '→', '😀', '{', '\u{7f}'])).collect()
}

fn same_result(a: &Option<Value>, b: &Option<Value>, tol: f64) -> bool {
    fn alike(a: &Value, b: &Value, tol: f64) -> bool {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| alike(v, w, tol))),
            (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| alike(v, w, tol)),
            (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), tol, tol),
            _ => a == b,
        }
    }
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => alike(a, b, tol),
        _ => false,
    }
}

impl Prop for C24 {
    type Case = C24Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "Histories of the builder: nodes added, nodes configured (again, and nodes that do not exist) with and without metadata, elements of known and unknown types with any numbers, elements at nodes that do not exist, the model saved in between; model types, element types and metadata names with any characters. A reader of the harness that keeps numbers as they are written compares every saved text with the model of what was built, then the text is read back, saved again and compared; studies of the built and the read model give the same. Non-trivial: two saves or a configured node, and an element.";
    const QUICK: u64 = 525_000;
    const ASSUMPTIONS: &'static [&'static str] = &["numbers that are not finite have no JSON form and are not generated", "numbers of more than 15 digits may be read back a few units in the last place off, which the JSON library documents"];

    fn generate(s: &mut Src) -> C24Case {
        let mut ops = vec![];
        if s.chance(1, 4) {
            let heat = s.chance(1, 2);
            let net = gen_net(s, heat, 5);
            ops.push(BOp::Nodes(net.nodes));
            let mut rest: Vec<BOp> = net.config.iter().map(|(i, (p, f))| BOp::Configure(*i, p.clone(), *f, None)).collect();
            for e in &net.els {
                rest.push(BOp::Element(e.clone()));
                if s.chance(1, 6) {
                    rest.push(BOp::Save);
                }
            }
            ops.extend(rest);
            ops.push(BOp::Save);
            return C24Case { model: net.model, ops, runs: true };
        }
        let mut n = 0;
        let k = s.tail(14, 50);
        for _ in 0..s.usize(1, k) {
            let node = |s: &mut Src, n: usize| if n == 0 || s.chance(1, 20) { *s.pick(&[n, n + 1, n + 7, usize::MAX]) } else { s.usize(0, n - 1) };
            ops.push(match s.weighted(&[2, 3, 5, 2]) {
                0 => {
                    let k = s.usize(0, 4);
                    n += k;
                    BOp::Nodes(k)
                }
                1 => {
                    let p = (0..s.weighted(&[1, 8, 2])).map(|_| F(gen_number(s))).collect();
                    let meta = match s.below(4) {
                        0 => Some((0..s.usize(0, 3)).map(|_| (gen_word(s), F(gen_number(s)))).collect()),
                        _ => None,
                    };
                    BOp::Configure(node(s, n), p, s.chance(1, 2), meta)
                }
                2 => {
                    let kind = if s.chance(1, 4) { gen_word(s) } else { s.pick(&["resistor", "voltage_source", "current_source", "conductor", "heat_flux"]).to_string() };
                    let gain = (0..s.weighted(&[1, 8, 3])).map(|_| F(gen_number(s))).collect();
                    BOp::Element(El { kind, input: node(s, n), output: node(s, n), gain })
                }
                _ => BOp::Save,
            });
        }
        ops.push(BOp::Save);
        let model = if s.chance(1, 4) { gen_word(s) } else { MODELS[s.usize(0, 1)].to_string() };
        C24Case { model, ops, runs: false }
    }

    fn check(c: &C24Case) -> Checked {
        let config = (!MODELS.contains(&c.model.as_str())).then(|| HashMap::from([(c.model.clone(), NodalAnalysisStudyConfigurator::new(1))]));
        let mut b = match NodalAnalysisStudyBuilder::new(c.model.clone(), config) {
            Ok(b) => b,
            Err(e) => fail!("a builder of the configured type {:?} is refused: {e}", c.model),
        };
        let mut m = Built { model: c.model.clone(), ..Default::default() };
        let mut saves = 0;
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("step {k}");
            match op {
                BOp::Nodes(n) => {
                    b = b.add_nodes(*n);
                    m.nodes += n;
                }
                BOp::Configure(i, p, f, meta) => {
                    b = b.configure_node(*i, raw(p), *f, meta.as_ref().map(|x| x.iter().map(|(k, v)| (k.clone(), v.0)).collect()));
                    m.config.insert(*i, (p.clone(), *f, meta.clone()));
                }
                BOp::Element(e) => {
                    let good = e.input < m.nodes && e.output < m.nodes;
                    match b.clone().add_element(&e.kind, e.input, e.output, raw(&e.gain)) {
                        Ok(x) => {
                            ensure!(good, "{what}: {e:?} is accepted with {} nodes", m.nodes);
                            b = x;
                            m.els.push(e.clone());
                        }
                        Err(x) => ensure!(!good, "{what}: {e:?} is refused with {} nodes: {x}", m.nodes),
                    }
                }
                BOp::Save => {
                    saves += 1;
                    let mut text = "what was there before".to_string();
                    let before = b.clone();
                    b = match b.save_model(&mut text) {
                        Ok(b) => b,
                        Err(e) => fail!("{what}: {m:?} is not saved: {e}"),
                    };
                    ensure!(b == before, "{what}: saving {m:?} changes it");
                    says(&text, &m, true, &format!("{what}: the text"))?;
                    let read = match NodalAnalysisModel::from_str(&text) {
                        Ok(r) => r,
                        Err(e) => fail!("{what}: {text} is not read back: {e}"),
                    };
                    let mut again = String::new();
                    let other = NodalAnalysisStudyBuilder::from_model_with_default_config(read);
                    let other = match other.save_model(&mut again) {
                        Ok(b) => b,
                        Err(e) => fail!("{what}: {text}, read back, is not saved: {e}"),
                    };
                    says(&again, &m, false, &format!("{what}: the text, read back,"))?;
                    if k + 1 == c.ops.len() && (c.runs || k % 4 == 0) && m.nodes <= 16 {
                        let run = |b: &NodalAnalysisStudyBuilder| b.clone().run_study(1e-6, 40).ok().map(|r| result_value(&r));
                        let got = run(&other);
                        let mut seen = false;
                        for _ in 0..12 {
                            seen |= same_result(&got, &run(&b), 1e-4);
                            if seen {
                                break;
                            }
                        }
                        // what is not determined may tip either way
                        let net = Net { model: m.model.clone(), nodes: m.nodes, config: m.config.iter().map(|(i, c)| (*i, (c.0.clone(), c.1))).collect(), els: m.els.clone() };
                        let unlike = !MODELS.contains(&net.model.as_str()) || flawed(&net).is_none() && !determined(&net);
                        ensure!(seen || unlike, "{what}: {text} gives {:?}, read back {got:?}", run(&b));
                    }
                }
            }
        }
        ok((saves >= 2 || !m.config.is_empty()) && !m.els.is_empty(), vec![if c.runs { "a network" } else { "anything" }])
    }
}

// ------------------------------------------------------------------ C25

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C25Case {
    net: Net,
    text: Vec<u8>,
    /// the text is that of the network
    sound: bool,
    file: String,
    args: Vec<String>,
    margin: F,
    limit: usize,
    bad: bool,
    missing: bool,
    directory: bool,
    blocked: bool,
    inside: bool,
    older: bool,
}
pub struct C25;

fn written(s: &mut Src, v: &Value, out: &mut String) {
    let gap = |s: &mut Src| *s.pick(&["", "", "", " ", "\n", "\t", "\r\n  "]);
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut l: Vec<(&String, &Value)> = m.iter().collect();
            s.shuffle(&mut l);
            for (k, (n, v)) in l.into_iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                *out += gap(s);
                *out += &json!(n).to_string();
                *out += gap(s);
                out.push(':');
                *out += gap(s);
                written(s, v, out);
            }
            *out += gap(s);
            out.push('}');
        }
        Value::Array(l) => {
            out.push('[');
            for (k, v) in l.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                *out += gap(s);
                written(s, v, out);
            }
            *out += gap(s);
            out.push(']');
        }
        Value::Number(n) if n.is_f64() => {
            let x = n.as_f64().unwrap();
            *out += &match s.below(5) {
                0 => format!("{x:e}"),
                1 => format!("{x:E}"),
                2 if x.fract() == 0.0 && x.abs() < 1e9 => format!("{}", x as i64),
                _ => format!("{x:?}"),
            };
        }
        v => *out += &v.to_string(),
    }
}

impl Prop for C25 {
    type Case = C25Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "Runs of the built neapolitan in a scratch directory on models written in any layout of JSON: sound networks, damaged ones, and texts that are not UTF-8; both options in both forms in random order, bad and missing values, missing and unreadable files, solutions that cannot be written, an older solution, model files of any name. Exit status, message, the solution file (its values against the laws of the network, or the library) and every other file of the directory are compared. Non-trivial: a run that solves, or one that has to fail.";
    const QUICK: u64 = 60_000;
    const ASSUMPTIONS: &'static [&'static str] = &["options given twice and unknown options are not judged", "where the library's answer hangs on hash order, any of its answers is accepted"];

    fn generate(s: &mut Src) -> C25Case {
        let heat = s.chance(1, 2);
        let net = gen_net(s, heat, 6);
        let mut v = to_value(&net);
        let mut sound = true;
        if s.chance(1, 8) {
            v["$schema"] = json!("./neapolitan_model_schema.json");
        }
        if s.chance(1, 3) {
            sound = false;
            damage(s, &mut v);
        }
        let mut text = String::new();
        written(s, &v, &mut text);
        if s.chance(1, 10) {
            sound = false;
            text = mutate(s, &text);
        }
        let mut text = text.into_bytes();
        if s.chance(1, 30) {
            sound = false;
            let i = s.usize(0, text.len());
            text.insert(i, 0xff);
        }
        let mut margin = 0.0001;
        let mut limit = 100;
        let mut bad = false;
        let mut args: Vec<Vec<String>> = vec![];
        if s.chance(2, 3) {
            let t = s.pick(&["0.001", "1e-5", "0.00001", ".001", "1E-3", "0.01", "0", "-1"]).to_string();
            margin = t.parse().unwrap();
            args.push(vec![s.pick(&["--precision", "-p"]).to_string(), t]);
        }
        if s.chance(2, 3) {
            limit = if s.chance(1, 8) { s.usize(0, 1) } else { s.usize(20, 200) };
            args.push(vec![s.pick(&["--iterations", "-i"]).to_string(), limit.to_string()]);
        }
        s.shuffle(&mut args);
        if s.chance(1, 8) {
            bad = true;
            let (o, v) = s.pick(&[("--precision", "much"), ("-p", ""), ("-p", "0,001"), ("--iterations", "-3"), ("-i", "2.5"), ("-i", "many"), ("--iterations", ""), ("-p", "-i")]);
            args = vec![vec![o.to_string(), v.to_string()]];
            if s.chance(1, 3) {
                args[0].pop();
            }
        }
        let odd = s.below(12);
        let file = s.pick(&["model.json", "model", "model.txt", "my model.json", "a.json.json", "model.soln.json", "model.json.old", ".json", "mödel.json", "sub/model.json", "-p.json", "json", "model.JSON"]).to_string();
        C25Case { net, text, sound, file, args: args.concat(), margin: F(margin), limit, bad, missing: odd == 0, directory: odd == 1, blocked: odd == 2, inside: s.chance(1, 2), older: s.chance(1, 3) }
    }

    fn check(c: &C25Case) -> Checked {
        let dir = Scratch::new();
        let out = format!("{}.soln.json", c.file.strip_suffix(".json").unwrap_or(&c.file));
        let mut files = Files::new();
        files.insert("other.soln.json".into(), Some(b"untouched".to_vec()));
        files.insert("other.json".into(), Some(b"{}".to_vec()));
        if c.directory {
            files.insert(c.file.clone(), None);
        } else if !c.missing {
            files.insert(c.file.clone(), Some(c.text.clone()));
        }
        if c.blocked {
            files.insert(out.clone(), None);
        } else if c.older && !c.missing {
            files.insert(out.clone(), Some(vec![b'='; 100_000]));
        }
        dir.fill(&files);
        let before = dir.seen();
        let path = if c.inside { c.file.clone() } else { dir.path(&c.file) };
        let mut args = vec![path];
        args.extend(c.args.iter().cloned());
        let ran = dir.run("neapolitan", &args);
        let mut after = dir.seen();
        let what = format!("neapolitan {} on {:?}", args[1..].join(" "), String::from_utf8_lossy(&c.text));
        let Some(code) = ran.code else { fail!("{what}: ended by a signal: {}", ran.err) };
        ensure!(!ran.err.contains("panicked"), "{what}: {}", ran.err);
        ensure!(code == 0 || code == 1, "{what}: exit status {code}: {}", ran.err);
        let text = std::str::from_utf8(&c.text);
        let due = c.bad || c.missing || c.directory || text.is_err() || c.blocked;
        let meant = text.ok().and_then(|t| serde_json::from_str::<Value>(t).ok()).as_ref().and_then(from_value);
        ensure!(!c.sound || meant.is_some(), "the harness does not read its own model {what}");
        let lib = || -> Option<Value> {
            let m = NodalAnalysisModel::from_str(text.unwrap_or("")).ok()?;
            refused(|| NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(c.margin.0, c.limit).ok().map(|r| result_value(&r))).unwrap_or(None)
        };
        let agrees = |got: &Option<Value>| {
            let mut w = None;
            for _ in 0..24 {
                w = lib();
                if same_result(got, &w, 1e-6 + 10.0 * c.margin.0.abs()) {
                    return Ok(());
                }
            }
            Err(w)
        };
        if code == 1 {
            ensure!(format!("{}{}", ran.out, ran.err).to_lowercase().contains("err"), "{what}: a failure without a message: {:?}", ran.out);
            ensure!(after == before, "{what}: a failure that changes the files {:?} into {:?}", names_of(&before), names_of(&after));
            if !due && meant.as_ref().is_some_and(|n| flawed(n).is_none() && determined(n)) {
                if let Err(w) = agrees(&None) {
                    fail!("{what}: fails, the library gives {w:?}: {}", ran.out);
                }
            }
            return ok(due, vec!["failure"]);
        }
        ensure!(!due, "{what}: exit status 0 where a failure is due");
        let Some(Some(t)) = after.remove(&out) else { fail!("{what}: no file {out}: {:?}", names_of(&after)) };
        let mut rest = before.clone();
        rest.remove(&out);
        ensure!(after == rest, "{what}: the files {:?} are changed into {:?}", names_of(&before), names_of(&after));
        let Ok(v) = serde_json::from_slice::<Value>(&t) else { fail!("{what}: the solution is no JSON: {}", String::from_utf8_lossy(&t)) };
        let Some(net) = meant else { fail!("{what}: gives {v} for what is no model") };
        if let Some(f) = flawed(&net) {
            fail!("{what}: {f}, and the solution {v} is given");
        }
        let laws: Vec<Law> = net.els.iter().map(|e| law(&net.model, e)).collect();
        let a = read_answer(&v, &net, 1, &what)?;
        if tame(&net) {
            obeys(&net, &laws, &a, 1, c.margin.0, &what)?;
        }
        if let Some(w) = reference(&net, &laws, 1) {
            near(&a.nodes, &w, c.margin.0, &what)?;
            if let Err(w) = agrees(&Some(v.clone())) {
                fail!("{what}: gives {v}, the library {w:?}");
            }
        }
        ok(true, vec!["solved"])
    }
}

// ------------------------------------------------------------------ C26

type Node = Weak<RefCell<GenericNode>>;
type Built26 = anyhow::Result<Rc<GenericElement>>;

/// The differences of two nodes, by the crate's own linear law
fn differences(i: &Rc<RefCell<GenericNode>>, o: &Rc<RefCell<GenericNode>>) -> anyhow::Result<Vec<f64>> {
    Ok(normal_flux(i.clone(), o.clone(), &Matrix::from_col_vec(vec![1.0]), false)?.into())
}
fn size_of(n: &Node) -> anyhow::Result<usize> {
    let v: Vec<f64> = get_node_potential(n)?.into();
    Ok(v.len())
}
fn wants(len: usize, n: usize) -> anyhow::Result<()> {
    if len == n {
        Ok(())
    } else {
        // any error type serves
        Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "gain").into())
    }
}
fn link_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(differences(&i, &o)?.iter().enumerate().map(|(k, d)| g[(k, 0)] * d).collect()))
}
fn link(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), size_of(&i)?)?;
    GenericElement::try_new(g, i, o, link_flux, false, true, true)
}
fn mix_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    let d = differences(&i, &o)?;
    Ok(Matrix::from_col_vec((0..d.len()).map(|r| (0..d.len()).map(|c| g[(r * d.len() + c, 0)] * d[c]).sum()).collect()))
}
fn mix(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), size_of(&i)?.pow(2))?;
    GenericElement::try_new(g, i, o, mix_flux, true, true, true)
}
fn soft_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, g: &Matrix<f64>, _: bool) -> anyhow::Result<Matrix<f64>> {
    Ok(Matrix::from_col_vec(differences(&i, &o)?.iter().map(|d| g[(0, 0)] * d + g[(1, 0)] * d.atan()).collect()))
}
fn soft(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), 2)?;
    GenericElement::try_new(g, i, o, soft_flux, false, true, true)
}
fn probe_flux(i: Rc<RefCell<GenericNode>>, o: Rc<RefCell<GenericNode>>, g: &Matrix<f64>, back: bool) -> anyhow::Result<Matrix<f64>> {
    let (p, q): (Vec<f64>, Vec<f64>) = (get_node_potential(&Rc::downgrade(&i))?.into(), get_node_potential(&Rc::downgrade(&o))?.into());
    Ok(Matrix::from_col_vec(p.iter().zip(&q).map(|(x, y)| if back { -g[(0, 0)] * (y - x) } else { g[(0, 0)] * (x - y) }).collect()))
}
fn probe(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), 1)?;
    GenericElement::try_new(g, i, o, probe_flux, false, true, true)
}
fn porbe(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), 1)?;
    GenericElement::try_new(g, i, o, probe_flux, true, true, true)
}
fn pump(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), size_of(&i)?)?;
    GenericElement::try_new(g, i, o, constant_flux, true, true, true)
}
fn jump(i: Node, o: Node, g: Vec<f64>) -> Built26 {
    wants(g.len(), size_of(&i)?)?;
    let forward = !is_locked(&o)?;
    wants((!forward && is_locked(&i)?) as usize, 0)?;
    let (from, to, sign) = if forward { (&i, &o, 1.0) } else { (&o, &i, -1.0) };
    lock_node(to)?;
    let p: Vec<f64> = get_node_potential(from)?.into();
    set_node_potential(to, p.iter().zip(&g).map(|(x, y)| x + sign * y).collect())?;
    GenericElement::try_new(g, i, o, observe_flux, forward, forward, !forward)
}

const CTORS: [(&str, ElementConstructor); 14] = [
    ("link", link),
    ("mix", mix),
    ("soft", soft),
    ("probe", probe),
    ("porbe", porbe),
    ("pump", pump),
    ("jump", jump),
    ("resistor", neapolitan::dc_circuits::resistor),
    ("voltage_source", neapolitan::dc_circuits::voltage_source),
    ("current_source", neapolitan::dc_circuits::current_source),
    ("conductor", neapolitan::heat_transfer::conductor),
    ("convection_interface", neapolitan::heat_transfer::convection_interface),
    ("temperature_delta", neapolitan::heat_transfer::temperature_delta),
    ("heat_flux", neapolitan::heat_transfer::heat_flux),
];

fn custom_law(ctor: &str, g: &[f64], dim: usize) -> Law {
    let scalar = |x: f64| Law::Linear((0..dim).map(|r| (0..dim).map(|c| if r == c { x } else { 0.0 }).collect()).collect());
    match (ctor, g.len()) {
        ("link", n) if n == dim => Law::Linear((0..dim).map(|r| (0..dim).map(|c| if r == c { g[r] } else { 0.0 }).collect()).collect()),
        ("mix", n) if n == dim * dim => Law::Linear(g.chunks(dim).map(|r| r.to_vec()).collect()),
        ("soft", 2) => Law::Soft(g[0], g[1]),
        ("probe" | "porbe" | "convection_interface" | "conductor", 1) => scalar(g[0]),
        ("conductor", 2) => scalar(g[1] / g[0]),
        ("resistor", 1) => scalar(1.0 / g[0]),
        ("pump" | "current_source" | "heat_flux", n) if n == dim => Law::Constant(g.to_vec()),
        ("jump" | "voltage_source" | "temperature_delta", n) if n == dim => Law::Jump(g.to_vec()),
        _ => Law::Wrong,
    }
}

/// The potentials by the laws, soft elements replaced by their secants until they settle
fn soft_reference(net: &Net, laws: &[Law], dim: usize) -> Option<Vec<Vec<f64>>> {
    let mut p = vec![vec![0.0; dim]; net.nodes];
    let any = laws.iter().any(|l| matches!(l, Law::Soft(..)));
    for _ in 0..if any { 40 } else { 1 } {
        let linear: Vec<Law> = net
            .els
            .iter()
            .zip(laws)
            .map(|(e, l)| match l {
                Law::Soft(a, b) => Law::Linear(
                    (0..dim)
                        .map(|r| {
                            let d: f64 = p[e.input][r] - p[e.output][r];
                            (0..dim).map(|c| if r != c { 0.0 } else { a + b * if d == 0.0 { 1.0 } else { d.atan() / d } }).collect()
                        })
                        .collect(),
                ),
                l => l.clone(),
            })
            .collect();
        p = reference(net, &linear, dim)?;
    }
    Some(p)
}

const TYPES: [&str; 4] = ["alpha", "beta", "dc_circuit", "three phase"];
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C26Case {
    dims: [usize; 2],
    /// which constructor goes by the k-th name, in the two configurations
    maps: [Vec<usize>; 2],
    types: [usize; 2],
    which: usize,
    net: Net,
    order: Vec<usize>,
    margin: F,
    limit: usize,
    wrong: Option<String>,
    again: usize,
}
pub struct C26;

impl Prop for C26 {
    type Case = C26Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "Two custom study types of 1 to 4 components side by side, the names of their elements bound at random (and differently) to constructors of the harness (gains by component, full matrices, a nonlinear law, laws that read potentials through the public accessors, pumps, driven differences built from the public parts) and to the constructors of the crate; connected networks of them of 1 to 10 nodes in two orders of elements. Results are put into the laws and balances of every component and compared with a multi-component nodal analysis; well-conditioned networks have to be solved. Names bound twice, unknown element and study types, potentials and gains of the wrong length have to be refused. Non-trivial: solved with two components or a nonlinear law, or a refusal.";
    const QUICK: u64 = 340_000;
    const ASSUMPTIONS: &'static [&'static str] = &["nonlinear laws of the harness are increasing, the nonlinear part a fifth of the linear one", "sources are taken in the order of the elements"];

    fn generate(s: &mut Src) -> C26Case {
        let dims = [s.usize(1, 4), s.usize(1, 4)];
        let perm = |s: &mut Src| {
            let mut v: Vec<usize> = (0..CTORS.len()).collect();
            s.shuffle(&mut v);
            v
        };
        let maps = [perm(s), perm(s)];
        let first = s.below(4) as usize;
        let types = [first, (first + s.usize(1, 3)) % 4];
        let which = s.usize(0, 1);
        let dim = dims[which];
        let name = |ctor: &str| {
            let k = CTORS.iter().position(|c| c.0 == ctor).unwrap();
            CTORS[maps[which].iter().position(|m| *m == k).unwrap()].0.to_string()
        };
        let mut net = gen_net(s, false, 10);
        net.model = TYPES[types[which]].into();
        for c in net.config.values_mut() {
            c.0 = (0..dim).map(|_| F(if s.chance(1, 3) { 0.0 } else { s.decimal(40, 1) })).collect();
        }
        let positive = |s: &mut Src| if s.chance(1, 2) { s.usize(1, 9) as f64 } else { s.usize(1, 50) as f64 / 10.0 };
        for e in &mut net.els {
            let (ctor, g): (&str, Vec<f64>) = match e.kind.as_str() {
                "voltage_source" => (s.pick(&["jump", "voltage_source", "temperature_delta"]), (0..dim).map(|_| s.decimal(30, 1)).collect()),
                "current_source" => (s.pick(&["pump", "current_source", "heat_flux"]), (0..dim).map(|_| s.decimal(10, 1)).collect()),
                _ => match s.below(8) {
                    0 | 1 => ("link", (0..dim).map(|_| positive(s)).collect()),
                    2 | 3 => {
                        let d = positive(s);
                        ("mix", (0..dim * dim).map(|k| if k / dim == k % dim { d } else { s.int(-3, 3) as f64 / 10.0 * d / dim as f64 }).collect())
                    }
                    4 => {
                        let a = positive(s);
                        ("soft", vec![a, a * s.usize(1, 4) as f64 / 20.0])
                    }
                    5 => (s.pick(&["probe", "porbe"]), vec![positive(s)]),
                    6 => ("conductor", (0..s.usize(1, 2)).map(|_| positive(s)).collect()),
                    _ => (s.pick(&["resistor", "convection_interface"]), vec![positive(s)]),
                },
            };
            e.kind = name(ctor);
            e.gain = fs(&g);
        }
        let mut wrong = None;
        if s.chance(1, 4) {
            let pick = |s: &mut Src, n: usize| s.usize(0, n - 1);
            match s.below(5) {
                0 if !net.els.is_empty() => {
                    let k = pick(s, net.els.len());
                    net.els[k].kind = s.pick(&["", "Link", "link ", "capacitor", "resistors"]).to_string();
                    wrong = Some("unknown element");
                }
                1 if !net.els.is_empty() => {
                    let k = pick(s, net.els.len());
                    let e = &mut net.els[k];
                    let len = e.gain.len();
                    let ctor = CTORS[maps[which][CTORS.iter().position(|c| c.0 == e.kind).unwrap()]].0;
                    // a resistor with more than one value is not specified, a conductor takes one or two
                    if ctor == "resistor" || s.chance(1, 3) {
                        e.gain.clear();
                    } else {
                        let more = s.usize(1, 2) + if ctor == "conductor" && len == 1 { 1 } else { 0 };
                        e.gain.extend((0..more).map(|_| F(1.0)));
                    }
                    wrong = Some("gain");
                }
                2 if !net.config.is_empty() => {
                    let c = net.config.values_mut().next().unwrap();
                    if s.chance(1, 2) {
                        c.0.push(F(0.0));
                    } else {
                        c.0.pop();
                    }
                    wrong = Some("potential");
                }
                3 => {
                    net.model = s.pick(&["heat_transfer", "", "Alpha", "gamma"]).to_string();
                    wrong = Some("study type");
                }
                4 => {
                    let n = net.nodes;
                    net.config.insert(n + s.usize(0, 3), ((0..dim).map(|_| F(0.0)).collect(), s.chance(1, 2)));
                    wrong = Some("node");
                }
                _ => {}
            }
        }
        let mut order: Vec<usize> = (0..net.els.len()).collect();
        s.shuffle(&mut order);
        C26Case { dims, maps, types, which, net, order, margin: F(*s.pick(&[1e-3, 1e-5, 1e-7])), limit: s.usize(30, 100), wrong: wrong.map(|w: &str| w.to_string()), again: s.usize(0, CTORS.len() - 1) }
    }

    fn check(c: &C26Case) -> Checked {
        let mut map = HashMap::new();
        for k in 0..2 {
            let mut conf = NodalAnalysisStudyConfigurator::new(c.dims[k]);
            for (i, m) in c.maps[k].iter().enumerate() {
                conf = match conf.add_element_type(CTORS[i].0, CTORS[*m].1) {
                    Ok(x) => x,
                    Err(e) => fail!("the name {:?}, bound once, is refused: {e}", CTORS[i].0),
                };
            }
            let twice = conf.clone().add_element_type(CTORS[c.again].0, CTORS[c.maps[k][c.again]].1);
            ensure!(twice.is_err(), "the name {:?} can be bound twice", CTORS[c.again].0);
            map.insert(TYPES[c.types[k]].to_string(), conf);
        }
        let dim = c.dims[c.which];
        let made = NodalAnalysisStudyBuilder::new(c.net.model.clone(), Some(map));
        if c.wrong.as_deref() == Some("study type") {
            ensure!(made.is_err(), "a study of the type {:?}, which is not configured, can be built", c.net.model);
            return ok(true, vec!["refused"]);
        }
        let b = match made {
            Ok(b) => b,
            Err(e) => fail!("a study of the configured type {:?} is refused: {e}", c.net.model),
        };
        let laws_of = |net: &Net| -> Vec<Law> {
            net.els
                .iter()
                .map(|e| match CTORS.iter().position(|n| n.0 == e.kind) {
                    Some(k) => custom_law(CTORS[c.maps[c.which][k]].0, &raw(&e.gain), dim),
                    None => Law::Wrong,
                })
                .collect()
        };
        let shown = |net: &Net| format!("{net:?} of {dim} components, where {}", CTORS.iter().enumerate().map(|(i, n)| format!("{} is {}", n.0, CTORS[c.maps[c.which][i]].0)).filter(|t| net.els.iter().any(|e| t.starts_with(&format!("{} is", e.kind)))).collect::<Vec<_>>().join(", "));
        let want = if c.wrong.is_none() { soft_reference(&c.net, &laws_of(&c.net), dim) } else { None };
        let mut other = c.net.clone();
        other.els = c.order.iter().map(|i| c.net.els[*i].clone()).collect();
        let mut solved = false;
        for net in [&c.net, &other] {
            let laws = laws_of(net);
            let what = shown(net);
            let study = match build(net, b.clone()) {
                Ok(b) => b,
                Err(e) => fail!("{what} cannot be built: {e}"),
            };
            match study.run_study(c.margin.0, c.limit) {
                Ok(r) => {
                    if let Some(w) = &c.wrong {
                        fail!("{what} has a wrong {w}, and a result: {}", result_value(&r));
                    }
                    let a = read_answer(&result_value(&r), net, dim, &what)?;
                    obeys(net, &laws, &a, dim, c.margin.0, &what)?;
                    if let Some(w) = &want {
                        near(&a.nodes, w, c.margin.0, &what)?;
                    }
                    ensure!(driven(net, &laws).is_some(), "{what}: a source between two fixed nodes is accepted");
                    solved = true;
                }
                Err(e) => ensure!(want.is_none() || driven(net, &laws).is_none(), "{what} is not solved: {e}; the laws give {want:?}"),
            }
        }
        let laws = laws_of(&c.net);
        let bent = laws.iter().any(|l| matches!(l, Law::Soft(..)));
        let free = c.net.nodes > c.net.config.values().filter(|c| c.1).count();
        ok(c.wrong.is_some() || solved && free && (dim >= 2 || bent), vec![if c.wrong.is_some() { "refused" } else if !solved { "not solved" } else if dim == 1 { "one component" } else { "several components" }])
    }
}
