//! C27: nodes and elements joined by hand, without a study.

use crate::engine::*;
use crate::util::*;
use crate::{ensure, fail};
use neapolitan::flux_formulas::{constant_flux, normal_flux};
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::{dc_circuits, get_node_potential, heat_transfer, is_locked, lock_node, set_node_potential, Matrix};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::{Rc, Weak};

const KINDS: [&str; 10] = ["resistor", "voltage_source", "current_source", "conductor", "convection_interface", "temperature_delta", "heat_flux", "normal", "constant", "tilt"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    Node(Vec<F>),
    Lock(usize),
    Set(usize, Vec<F>),
    Drop(usize),
    /// kind, input, output, gain; the custom ones: direction flag, connected to input, to output
    Join(usize, usize, usize, Vec<F>, [bool; 3]),
    Flux(usize),
    Balance(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C27Case {
    dim: usize,
    steps: Vec<Step>,
}

type Node = Rc<RefCell<GenericNode>>;

/// A law of the harness, which turns round with the direction flag
fn tilt_flux(i: Node, o: Node, g: &Matrix<f64>, back: bool) -> anyhow::Result<Matrix<f64>> {
    let (p, q): (Vec<f64>, Vec<f64>) = (get_node_potential(&Rc::downgrade(&i))?.into(), get_node_potential(&Rc::downgrade(&o))?.into());
    Ok(Matrix::from_col_vec(p.iter().zip(&q).enumerate().map(|(k, (x, y))| if back { -g[(k, 0)] * (x - 2.0 * y) } else { g[(k, 0)] * (x - 2.0 * y) }).collect()))
}

#[derive(Clone, Debug)]
enum MLaw {
    Times(f64),
    Constant(Vec<f64>),
    Tilt(Vec<f64>),
    /// whether it drives the output
    Source(Vec<f64>, bool),
}
#[derive(Clone, Debug)]
struct MEl {
    law: MLaw,
    a: usize,
    b: usize,
}
#[derive(Clone, Debug)]
struct MNode {
    p: Vec<f64>,
    locked: bool,
    alive: bool,
    ins: Vec<usize>,
    outs: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
struct Model {
    nodes: Vec<MNode>,
    els: Vec<MEl>,
}

/// Values with the sum of the magnitudes that went into them
type Sum = Vec<(f64, f64)>;

impl Model {
    /// The sources' nodes follow, as far as there is an order in which they do
    fn settle(&mut self) -> bool {
        for _ in 0..=self.els.len() {
            let before: Vec<Vec<f64>> = self.nodes.iter().map(|n| n.p.clone()).collect();
            for e in &self.els {
                let MLaw::Source(v, out) = &e.law else { continue };
                if !self.nodes[e.a].alive || !self.nodes[e.b].alive {
                    continue;
                }
                let (from, to, sign) = if *out { (e.a, e.b, 1.0) } else { (e.b, e.a, -1.0) };
                self.nodes[to].p = self.nodes[from].p.iter().zip(v).map(|(x, d)| x + sign * d).collect();
            }
            if self.nodes.iter().zip(&before).all(|(n, p)| n.p == *p) {
                return true;
            }
        }
        false
    }
    /// `None` when something was dropped, or when the sources form a circle
    fn flux(&self, e: usize, depth: usize) -> Option<Sum> {
        let MEl { law, a, b } = &self.els[e];
        let (i, o) = (&self.nodes[*a], &self.nodes[*b]);
        if !i.alive || !o.alive || depth > self.els.len() {
            return None;
        }
        Some(match law {
            MLaw::Times(k) => i.p.iter().zip(&o.p).map(|(x, y)| (k * (x - y), k.abs() * (x.abs() + y.abs()))).collect(),
            MLaw::Constant(v) => v.iter().map(|x| (*x, x.abs())).collect(),
            MLaw::Tilt(g) => i.p.iter().zip(&o.p).zip(g).map(|((x, y), k)| (k * (x - 2.0 * y), k.abs() * (x.abs() + 2.0 * y.abs()))).collect(),
            MLaw::Source(_, out) => self.balance(if *out { *b } else { *a }, depth + 1)?.into_iter().map(|(x, s)| (if *out { -x } else { x }, s)).collect(),
        })
    }
    fn balance(&self, n: usize, depth: usize) -> Option<Sum> {
        let node = &self.nodes[n];
        let mut t: Sum = node.p.iter().map(|_| (0.0, 0.0)).collect();
        for (list, sign) in [(&node.ins, 1.0), (&node.outs, -1.0)] {
            for e in list {
                for (k, (x, s)) in self.flux(*e, depth)?.into_iter().enumerate() {
                    t[k].0 += sign * x;
                    t[k].1 += s;
                }
            }
        }
        Some(t)
    }
}

pub struct C27;
impl Prop for C27 {
    type Case = C27Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "Histories of 4 to 40 steps that make nodes of 1 to 3 components, fix them, set their potentials, join them with elements of the crate's constructors and with custom ones (every combination of connections and direction), some of them to nodes that are fixed or dropped or with gains of the wrong length, drop nodes, and ask for fluxes and balances. After every step all potentials and fixed flags are compared with a model, after settling the sources every flux and balance asked for. Non-trivial: a flux or balance of a node with at least two elements compared, or a refusal.";
    const QUICK: u64 = 750_000;
    const ASSUMPTIONS: &'static [&'static str] = &["fluxes are compared once the sources have been asked for theirs, as a study does; circles of sources only have to end"];

    fn generate(s: &mut Src) -> C27Case {
        let dim = s.usize(1, 3);
        let value = |s: &mut Src| -> Vec<F> { (0..dim).map(|_| F(s.decimal(50, 2))).collect() };
        let mut steps = vec![];
        let (mut nodes, mut els) = (0, 0);
        for _ in 0..s.usize(2, 4) {
            steps.push(Step::Node(value(s)));
            nodes += 1;
        }
        let top = s.tail(20, 40);
        for _ in 0..s.usize(2, top) {
            let n = |s: &mut Src| s.usize(0, nodes - 1);
            let step = match s.weighted(&[2, 2, 3, 1, 12, 5, 5]) {
                0 => Step::Node(value(s)),
                1 => Step::Lock(n(s)),
                2 => Step::Set(n(s), value(s)),
                3 if s.chance(1, 3) => Step::Drop(n(s)),
                5 if els > 0 => Step::Flux(s.usize(0, els - 1)),
                6 => Step::Balance(n(s)),
                _ => {
                    let kind = s.usize(0, KINDS.len() - 1);
                    let len = match KINDS[kind] {
                        "resistor" | "convection_interface" | "normal" => 1,
                        "conductor" => s.usize(1, 2),
                        _ => dim,
                    };
                    let mut gain: Vec<F> = (0..len).map(|_| F(if s.chance(1, 2) { s.usize(1, 9) as f64 } else { s.decimal(20, 2) })).collect();
                    if KINDS[kind] == "resistor" || KINDS[kind] == "conductor" {
                        gain.iter_mut().for_each(|g| if g.0.abs() < 0.1 { g.0 = 1.0 });
                    }
                    if kind < 7 && s.chance(1, 12) {
                        // a resistor with more than one value is not specified
                        if KINDS[kind] == "resistor" || s.chance(1, 2) {
                            gain.clear();
                        } else {
                            gain.extend([F(1.0), F(2.0)]);
                        }
                    }
                    let (a, mut b) = (n(s), n(s));
                    if a == b && !s.chance(1, 6) {
                        b = (b + 1) % nodes;
                    }
                    els += 1;
                    Step::Join(kind, a, b, gain, [s.chance(1, 2), s.chance(3, 4), s.chance(3, 4)])
                }
            };
            if matches!(step, Step::Node(_)) {
                nodes += 1;
            }
            steps.push(step);
        }
        C27Case { dim, steps }
    }

    fn check(c: &C27Case) -> Checked {
        let mut m = Model::default();
        let mut nodes: Vec<Option<Node>> = vec![];
        let mut weak: Vec<Weak<RefCell<GenericNode>>> = vec![];
        // elements by the number of their step among the joins
        let mut els: Vec<Option<(Rc<GenericElement>, usize)>> = vec![];
        let (mut compared, mut refused_any, mut circle) = (false, false, false);

        // a balance or flux asked for
        enum Ask {
            Flux(usize),
            Balance(usize),
        }
        for (n, step) in c.steps.iter().enumerate() {
            let what = format!("step {n} ({step:?})");
            let mut ask = None;
            match step {
                Step::Node(p) => {
                    let node = GenericNode::new();
                    weak.push(Rc::downgrade(&node));
                    let fresh: Vec<f64> = get_node_potential(&weak[weak.len() - 1]).map_err(|e| Failure::from(format!("{what}: {e}")))?.into();
                    ensure!(fresh == [1.0] && !is_locked(&weak[weak.len() - 1]).unwrap_or(true), "{what}: a new node has the potential {fresh:?}");
                    nodes.push(Some(node));
                    if let Err(e) = set_node_potential(&weak[weak.len() - 1], raw(p)) {
                        fail!("{what}: the potential of a new node cannot be set: {e}");
                    }
                    m.nodes.push(MNode { p: raw(p), locked: false, alive: true, ins: vec![], outs: vec![] });
                }
                Step::Lock(i) => {
                    ensure!(lock_node(&weak[*i]).is_ok() == m.nodes[*i].alive, "{what}: the result of fixing node {i} does not tell whether it is there");
                    m.nodes[*i].locked = true;
                }
                Step::Set(i, p) => {
                    ensure!(set_node_potential(&weak[*i], raw(p)).is_ok() == m.nodes[*i].alive, "{what}: the result of setting node {i} does not tell whether it is there");
                    m.nodes[*i].p = raw(p);
                }
                Step::Drop(i) => {
                    nodes[*i] = None;
                    m.nodes[*i].alive = false;
                }
                Step::Join(kind, a, b, gain, [flag, cin, cout]) => {
                    let g = raw(gain);
                    let (wa, wb) = (weak[*a].clone(), weak[*b].clone());
                    let made = match KINDS[*kind] {
                        "resistor" => dc_circuits::resistor(wa, wb, g.clone()),
                        "voltage_source" => dc_circuits::voltage_source(wa, wb, g.clone()),
                        "current_source" => dc_circuits::current_source(wa, wb, g.clone()),
                        "conductor" => heat_transfer::conductor(wa, wb, g.clone()),
                        "convection_interface" => heat_transfer::convection_interface(wa, wb, g.clone()),
                        "temperature_delta" => heat_transfer::temperature_delta(wa, wb, g.clone()),
                        "heat_flux" => heat_transfer::heat_flux(wa, wb, g.clone()),
                        "normal" => GenericElement::try_new(g.clone(), wa, wb, normal_flux, *flag, *cin, *cout),
                        "constant" => GenericElement::try_new(g.clone(), wa, wb, constant_flux, *flag, *cin, *cout),
                        _ => GenericElement::try_new(g.clone(), wa, wb, tilt_flux, *flag, *cin, *cout),
                    };
                    let alive = m.nodes[*a].alive && m.nodes[*b].alive;
                    let source = ["voltage_source", "temperature_delta"].contains(&KINDS[*kind]);
                    let fits = match KINDS[*kind] {
                        "resistor" => g.len() >= 1,
                        "convection_interface" => g.len() == 1,
                        "conductor" => g.len() == 1 || g.len() == 2,
                        "normal" | "constant" | "tilt" => true,
                        _ => g.len() == c.dim,
                    };
                    let free = !source || !m.nodes[*a].locked || !m.nodes[*b].locked;
                    match made {
                        Ok(e) => {
                            ensure!(alive, "{what}: an element is joined to a node that was dropped");
                            ensure!(fits, "{what}: an element of {} components with the gain {g:?} is accepted", c.dim);
                            ensure!(free, "{what}: a source between two fixed nodes is accepted");
                            let id = m.els.len();
                            els.push(Some((e, id)));
                            let mut joins = (true, true);
                            let law = match KINDS[*kind] {
                                "resistor" => MLaw::Times(1.0 / g[0]),
                                "conductor" => MLaw::Times(if g.len() == 1 { g[0] } else { g[1] / g[0] }),
                                "convection_interface" => MLaw::Times(g[0]),
                                "current_source" | "heat_flux" => MLaw::Constant(g),
                                "normal" | "constant" | "tilt" => {
                                    joins = (*cin, *cout);
                                    match KINDS[*kind] {
                                        "normal" => MLaw::Times(g[0]),
                                        "constant" => MLaw::Constant(g),
                                        _ => MLaw::Tilt(if *flag { g.iter().map(|x| -x).collect() } else { g }),
                                    }
                                }
                                _ => {
                                    let out = !m.nodes[*b].locked;
                                    joins = (out, !out);
                                    let (from, to, sign) = if out { (*a, *b, 1.0) } else { (*b, *a, -1.0) };
                                    m.nodes[to].locked = true;
                                    m.nodes[to].p = m.nodes[from].p.iter().zip(&g).map(|(x, d)| x + sign * d).collect();
                                    circle |= a == b;
                                    MLaw::Source(g, out)
                                }
                            };
                            if joins.0 {
                                m.nodes[*a].outs.push(id);
                            }
                            if joins.1 {
                                m.nodes[*b].ins.push(id);
                            }
                            m.els.push(MEl { law, a: *a, b: *b });
                        }
                        Err(e) => {
                            ensure!(!alive || !fits || !free, "{what}: an element between two nodes that are there is refused: {e}");
                            refused_any = true;
                            els.push(None);
                        }
                    }
                }
                Step::Flux(k) => {
                    if let Some(Some((_, id))) = els.get(*k) {
                        ask = Some(Ask::Flux(*id));
                    }
                }
                Step::Balance(i) => ask = Some(Ask::Balance(*i)),
            }
            if let Some(ask) = ask {
                // the driven nodes follow
                let consistent = m.settle();
                for _ in 0..m.els.len() {
                    for (e, id) in els.iter().flatten() {
                        if matches!(m.els[*id].law, MLaw::Source(..)) {
                            let _ = e.get_flux();
                        }
                    }
                }
                circle |= !consistent;
                let (got, want, elements) = match ask {
                    Ask::Flux(id) => {
                        let e = els.iter().flatten().find(|e| e.1 == id).unwrap();
                        (e.0.get_flux().ok(), m.flux(id, 0), 1)
                    }
                    Ask::Balance(i) => match &nodes[i] {
                        Some(n) => (n.borrow().get_flux_discrepancy().ok(), m.balance(i, 0), m.nodes[i].ins.len() + m.nodes[i].outs.len()),
                        None => (None, None, 0),
                    },
                };
                if circle || !ends(&m) {
                    // only has to end
                    return ok(false, vec!["circle of sources"]);
                }
                match (got, want) {
                    (Some(g), Some(w)) => {
                        let g: Vec<f64> = g.into();
                        ensure!(g.len() == w.len(), "{what}: {} components instead of {}", g.len(), w.len());
                        for (x, (y, size)) in g.iter().zip(&w) {
                            ensure!((x - y).abs() <= 1e-11 * (size + y.abs()) + 1e-300, "{what}: {g:?} instead of {:?}", w.iter().map(|x| x.0).collect::<Vec<_>>());
                        }
                        compared |= elements >= 2 || matches!(step, Step::Flux(_));
                    }
                    (None, None) => refused_any = true,
                    (Some(g), None) => fail!("{what}: {:?} although a node it depends on was dropped", Vec::<f64>::from(g)),
                    (None, Some(w)) => fail!("{what}: refused instead of {:?}", w.iter().map(|x| x.0).collect::<Vec<_>>()),
                }
            }
            if circle {
                return ok(false, vec!["circle of sources"]);
            }
            for (i, node) in m.nodes.iter().enumerate() {
                match (get_node_potential(&weak[i]), is_locked(&weak[i])) {
                    (Ok(p), Ok(l)) => {
                        let p: Vec<f64> = p.into();
                        ensure!(node.alive, "after {what}: node {i}, which was dropped, has the potential {p:?}");
                        ensure!(l == node.locked, "after {what}: node {i} is {}fixed", if l { "" } else { "not " });
                        ensure!(p.len() == c.dim && p.iter().zip(&node.p).all(|(x, y)| (x - y).abs() <= 1e-10 * y.abs().max(1.0)), "after {what}: node {i} has the potential {p:?} instead of {:?}", node.p);
                    }
                    (Err(_), Err(_)) => ensure!(!node.alive, "after {what}: node {i} cannot be read"),
                    _ => fail!("after {what}: node {i} can be read only in part"),
                }
            }
        }
        ok(compared || refused_any, vec![if refused_any { "with a refusal" } else { "without refusals" }])
    }
}

/// Whether following the sources from any node comes to an end
fn ends(m: &Model) -> bool {
    // a source needs the balance of the node it drives, which needs the sources leaving it
    let mut next: Vec<Vec<usize>> = vec![vec![]; m.nodes.len()];
    for e in &m.els {
        if let MLaw::Source(_, out) = &e.law {
            let (from, to) = if *out { (e.a, e.b) } else { (e.b, e.a) };
            next[from].push(to);
        }
    }
    (0..m.nodes.len()).all(|start| {
        let mut at = vec![start];
        for _ in 0..=m.nodes.len() {
            at = at.iter().flat_map(|n| next[*n].clone()).collect();
            at.sort();
            at.dedup();
        }
        at.is_empty()
    })
}
