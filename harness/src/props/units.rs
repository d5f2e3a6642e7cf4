//! C19: unit conversions.

use crate::engine::*;
use crate::util::*;
use crate::{ensure, fail};
use nexsys::units::{convert, raw_unit_data, unit_data};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

/// Units by quantity with their size in the quantity's first unit, from their published definitions;
/// 0 where the abbreviation has no single agreed meaning (such units are only checked for consistency).
const TABLE: &[(&str, &[(&str, f64)])] = &[
    ("LENGTH", &[
        ("m", 1.0), ("meter", 1.0), ("metre", 1.0), ("Angstrom", 1e-10), ("nm", 1e-9), ("ft", 0.3048), ("dm", 0.1), ("in", 0.0254), ("inch", 0.0254), ("mm", 1e-3), ("micron", 1e-6), ("micrometer", 1e-6), ("nanometer", 1e-9),
        ("millimeter", 1e-3), ("cm", 1e-2), ("km", 1e3), ("yd", 0.9144), ("yard", 0.9144), ("mi", 1609.344), ("mile", 1609.344), ("miles", 1609.344), ("fathom", 1.8288), ("mil", 2.54e-5), ("rod", 5.0292), ("furlong", 201.168),
        ("league", 0.0), ("hectometer", 100.0),
    ]),
    ("MASS", &[
        ("kg", 1.0), ("lbm", 0.45359237), ("lb_m", 0.45359237), ("g", 1e-3), ("ton", 907.18474), ("grain", 6.479891e-5), ("mg", 1e-6), ("oz", 0.028349523), ("ozm", 0.028349523), ("slug", 14.593903), ("stone", 6.35029318),
        ("amu", 1.66053907e-27), ("microgram", 1e-9), ("mt", 1000.0), ("tonne", 1000.0),
    ]),
    ("MOLES", &[("kgmole", 1.0), ("kgmol", 1.0), ("kmole", 1.0), ("kmol", 1.0), ("lbmole", 0.45359237), ("lbmol", 0.45359237), ("gmole", 1e-3), ("gmol", 1e-3), ("mole", 1e-3), ("mol", 1e-3)]),
    ("TIME", &[
        ("s", 1.0), ("sec", 1.0), ("second", 1.0), ("min", 60.0), ("minute", 60.0), ("h", 3600.0), ("hr", 3600.0), ("hour", 3600.0), ("day", 86400.0), ("days", 86400.0), ("week", 604800.0), ("weeks", 604800.0), ("fortnight", 1209600.0),
        ("year", 31556952.0), ("yr", 31556952.0), ("years", 31556952.0), ("millisec", 1e-3), ("microsec", 1e-6),
    ]),
    ("FREQUENCY", &[("Hz", 1.0), ("cps", 1.0), ("cpm", 1.0 / 60.0), ("Bq", 1.0), ("ci", 3.7e10)]),
    ("TEMPERATURE", &[("K", 1.0), ("C", 1.0), ("R", 5.0 / 9.0), ("F", 5.0 / 9.0)]),
    ("TEMP. DIFFERENCE", &[("DELTAK", 1.0), ("DELTAC", 1.0), ("DELTAF", 5.0 / 9.0), ("DELTAR", 5.0 / 9.0)]),
    ("VELOCITY", &[("mph", 0.44704), ("knot", 1852.0 / 3600.0), ("kph", 1.0 / 3.6)]),
    ("AREA", &[("sqm", 1.0), ("sqcm", 1e-4), ("sqft", 0.09290304), ("sqin", 0.00064516), ("acre", 4046.8564), ("hectare", 1e4), ("barn", 1e-28)]),
    ("VOLUME", &[
        ("gal", 0.003785411784), ("gallon", 0.003785411784), ("l", 1e-3), ("L", 1e-3), ("Bu", 0.03523907), ("ml", 1e-6), ("milliliter", 1e-6), ("microliter", 1e-9), ("liter", 1e-3), ("quart", 0.000946352946), ("oz", 2.95735296e-5),
        ("ozv", 2.95735296e-5), ("pint", 0.000473176473), ("bbl", 0.158987295),
    ]),
    ("VOLUMETRIC FLOW", &[("cfm", 0.00047194745), ("gph", 0.003785411784 / 3600.0), ("gpm", 0.003785411784 / 60.0)]),
    ("FORCE", &[("N", 1.0), ("kN", 1e3), ("lbf", 4.44822162), ("lb_f", 4.44822162), ("dyne", 1e-5), ("kgf", 9.80665), ("kg_f", 9.80665)]),
    ("PRESSURE", &[
        ("Pa", 1.0), ("milliPa", 1e-3), ("microPa", 1e-6), ("kPa", 1e3), ("MPa", 1e6), ("GPa", 1e9), ("gigaPa", 1e9), ("bar", 1e5), ("milliBar", 100.0), ("atm", 101325.0), ("psia", 6894.757), ("psi", 6894.757), ("ksi", 6894757.0),
        ("psig", 6894.757), ("psf", 47.880259), ("mmH2O", 9.80665), ("mH2O", 9806.65), ("mmHg", 133.322), ("inHg", 3386.389), ("torr", 133.322), ("inH2O", 249.089), ("in.H2O", 249.089), ("ftH2O", 2989.067),
    ]),
    ("ENERGY", &[
        ("J", 1.0), ("milliJ", 1e-3), ("kJ", 1e3), ("MJ", 1e6), ("Wh", 3600.0), ("Whr", 3600.0), ("kWh", 3.6e6), ("kWhr", 3.6e6), ("MWh", 3.6e9), ("MWhr", 3.6e9), ("GWh", 3.6e12), ("GWhr", 3.6e12), ("GJ", 1e9), ("Btu", 1055.05585),
        ("MBtu", 0.0), ("MMBtu", 1.05505585e9), ("kBtu", 1055055.85), ("cal", 4.1868), ("kcal", 4186.8), ("erg", 1e-7), ("ev", 1.602177e-19), ("eV", 1.602177e-19), ("keV", 1.602177e-16), ("kev", 1.602177e-16), ("mev", 0.0), ("meV", 0.0),
        ("bev", 0.0), ("beV", 0.0), ("therm", 1.05505585e8), ("therms", 1.05505585e8), ("quad", 1.05505585e18), ("quads", 1.05505585e18),
    ]),
    ("POWER", &[
        ("W", 1.0), ("hp", 745.69987), ("ton", 3516.8528), ("tons", 3516.8528), ("microW", 1e-6), ("milliW", 1e-3), ("kW", 1e3), ("MW", 1e6), ("MegaW", 1e6), ("gW", 0.0), ("gigaW", 1e9),
    ]),
    ("VISCOSITY-DYNAMIC", &[("poise", 0.1), ("centipoise", 1e-3), ("micropoise", 1e-7), ("cp", 1e-3), ("Reyn", 6894.757)]),
    ("VISCOSITY-KINEMATIC", &[("Stoke", 1e-4), ("centiStoke", 1e-6)]),
    ("ANGLES", &[
        ("radian", 1.0), ("radians", 1.0), ("rad", 1.0), ("deg", 0.0174532925), ("degree", 0.0174532925), ("degrees", 0.0174532925), ("rev", 6.283185307), ("revs", 6.283185307), ("revolutions", 6.283185307), ("minute", 0.000290888209),
        ("quadrant", 1.570796327), ("cycle", 6.283185307), ("cycles", 6.283185307),
    ]),
    ("CHARGE", &[("Coulomb", 1.0), ("Faraday", 96485.332), ("Abcoulomb", 10.0)]),
    ("ELECTRICAL CAPACITANCE", &[("Farad", 1.0), ("pFarad", 1e-12), ("pF", 1e-12)]),
    ("DIPOLE MOMENT", &[("Debye", 3.33564e-30)]),
    ("CURRENT", &[("Amp", 1.0), ("Ampere", 1.0), ("A", 1.0)]),
    ("ELECTRICAL RESISTANCE", &[("ohm", 1.0), ("kohm", 1e3)]),
    ("ELECTROMOTIVE FORCE", &[("Volt", 1.0), ("millivolt", 1e-3), ("kV", 1e3), ("MegaVolt", 1e6), ("v", 1.0)]),
    ("INDUCTANCE", &[("Henry", 1.0)]),
    ("NON DIMENSIONAL", &[("-", 1.0), ("space", 1.0), ("Percent", 0.01), ("%", 0.01), ("person", 1.0), ("persons", 1.0), ("ppm", 1e-6), ("ppb", 1e-9), ("any", 1.0)]),
    ("MAGNETIC FLUX DENSITY", &[("Gauss", 1e-4), ("G", 1e-4), ("Tesla", 1.0), ("T", 1.0)]),
    ("MAGNETIC FLUX", &[("Maxwell", 1e-8), ("Mx", 1e-8), ("Weber", 1.0), ("Wb", 1.0)]),
    ("MAGNETIC FIELD STRENGTH", &[("Oersted", 79.5774715), ("Oe", 79.5774715)]),
    ("ILLUMINANCE", &[("lm", 1.0)]),
    ("ILLUMINANCE FLUX", &[("lux", 1.0), ("ftcndl", 10.763910417), ("mcndl", 1.0)]),
    ("SPRING FORCE", &[]),
];

/// How units of a quantity are made of units of others
#[derive(Clone, Copy)]
enum Made {
    Over(&'static str, &'static str),
    Times(&'static str, &'static str),
    Power(&'static str, u32),
}
const MADE: &[(&str, Made)] = &[
    ("AREA", Made::Power("LENGTH", 2)),
    ("VOLUME", Made::Power("LENGTH", 3)),
    ("VELOCITY", Made::Over("LENGTH", "TIME")),
    ("FREQUENCY", Made::Over("NON DIMENSIONAL", "TIME")),
    ("VOLUMETRIC FLOW", Made::Over("VOLUME", "TIME")),
    ("POWER", Made::Over("ENERGY", "TIME")),
    ("PRESSURE", Made::Over("FORCE", "AREA")),
    ("SPRING FORCE", Made::Over("FORCE", "LENGTH")),
    ("ENERGY", Made::Times("FORCE", "LENGTH")),
    // pressures here are the named ones
    ("VISCOSITY-DYNAMIC", Made::Times("PRESSURE", "TIME")),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Unit {
    Named(String, F),
    Over(Box<Unit>, Box<Unit>),
    Times(Box<Unit>, Box<Unit>),
    Power(Box<Unit>, u32),
}
impl Unit {
    fn text(&self) -> String {
        match self {
            Unit::Named(t, _) => t.clone(),
            Unit::Over(a, b) => format!("{}/{}", a.text(), b.text()),
            Unit::Times(a, b) => format!("{}-{}", a.text(), b.text()),
            Unit::Power(a, k) => format!("{}^{k}", a.text()),
        }
    }
    /// 0 if a part of it has no agreed size
    fn value(&self) -> f64 {
        match self {
            Unit::Named(_, v) => v.0,
            Unit::Over(a, b) => if b.value() == 0.0 { 0.0 } else { a.value() / b.value() },
            Unit::Times(a, b) => a.value() * b.value(),
            Unit::Power(a, k) => a.value().powi(*k as i32),
        }
    }
}

fn named(s: &mut Src, q: &str) -> Option<Unit> {
    let (_, us) = TABLE.iter().find(|(n, _)| *n == q).unwrap();
    if us.is_empty() {
        return None;
    }
    let (t, v) = *s.pick(us);
    Some(Unit::Named(t.into(), F(v)))
}
fn gen_unit(s: &mut Src, q: &str, plain: bool) -> Unit {
    if let Some((_, m)) = MADE.iter().find(|(n, _)| *n == q) {
        if !plain && s.chance(2, 3) || q == "SPRING FORCE" {
            return match *m {
                Made::Over(a, b) => {
                    let u = gen_unit(s, a, false);
                    let v = gen_unit(s, b, false);
                    Unit::Over(Box::new(u), Box::new(v))
                }
                Made::Times(a, b) => {
                    // the factors come in either order
                    let u = gen_unit(s, a, true);
                    let v = gen_unit(s, b, true);
                    if s.chance(1, 2) { Unit::Times(Box::new(u), Box::new(v)) } else { Unit::Times(Box::new(v), Box::new(u)) }
                }
                Made::Power(a, k) => Unit::Power(Box::new(gen_unit(s, a, true)), k),
            };
        }
    }
    named(s, q).unwrap()
}
/// Named units that belong to two quantities
const TWICE: &[&str] = &["oz", "ton", "minute"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C19Case {
    /// three units of one quantity
    Three(String, Unit, Unit, Unit),
    /// no conversion
    None(String, String),
    /// every pair of the named units of a quantity
    Quantity(usize),
    /// the whole table
    Tables,
}
pub struct C19;

fn factor(a: &str, b: &str) -> Result<f64, Failure> {
    match convert(a, b) {
        Ok(v) => {
            ensure!(v.is_finite() && v > 0.0, "{a} to {b} is {v:?}");
            Ok(v)
        }
        Err(e) => fail!("{a} is not converted to {b}: {e}"),
    }
}
/// The factor between units of the same make, from the factors of their parts
fn by_parts(a: &Unit, b: &Unit) -> Result<Option<f64>, Failure> {
    Ok(match (a, b) {
        (Unit::Named(x, _), Unit::Named(y, _)) => Some(if x == y { 1.0 } else { factor(x, y)? }),
        (Unit::Over(p, q), Unit::Over(r, t)) => match (by_parts(p, r)?, by_parts(q, t)?) {
            (Some(x), Some(y)) => Some(x / y),
            _ => None,
        },
        (Unit::Power(p, k), Unit::Power(r, l)) if k == l => by_parts(p, r)?.map(|x| x.powi(*k as i32)),
        (Unit::Times(p, q), Unit::Times(r, t)) => {
            // in the same order or the other one
            let same = |x: &Unit, y: &Unit| x.text() == y.text() || convert(&x.text(), &y.text()).is_ok();
            let (r, t) = if same(p, r) { (r, t) } else { (t, r) };
            match (by_parts(p, r)?, by_parts(q, t)?) {
                (Some(x), Some(y)) => Some(x * y),
                _ => None,
            }
        }
        _ => None,
    })
}
const AGREE: f64 = 5e-4;

impl Prop for C19 {
    type Case = C19Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "Every pair of the named units of every quantity (fixed cases), and random triples of named and derived units (quotients, products in either order, squares and cubes, made by a grammar of the harness) of one quantity: identity, reciprocal, chain, composition from the factors of the parts, and comparison with published definitions; pairs of units of different quantities, units that name two quantities, misspelt units. Non-trivial: a derived unit is converted, or a refusal is due.";
    const QUICK: u64 = 62_500;
    const ASSUMPTIONS: &'static [&'static str] = &["published values are compared to 0.05 %; abbreviations without an agreed meaning (league, MBtu, mev, bev, gW) are only checked for consistency", "temperatures are converted as differences"];

    fn fixed() -> Vec<C19Case> {
        let mut v = vec![C19Case::Tables];
        v.extend((0..TABLE.len()).map(C19Case::Quantity));
        v
    }
    fn generate(s: &mut Src) -> C19Case {
        let quantities: Vec<&str> = TABLE.iter().map(|t| t.0).collect();
        let made: Vec<&str> = MADE.iter().map(|t| t.0).collect();
        let pick = |s: &mut Src| if s.chance(3, 4) { *s.pick(&made) } else { *s.pick(&quantities) };
        if s.chance(1, 4) {
            let (p, q) = (pick(s), pick(s));
            let (u, v) = (gen_unit(s, p, false).text(), gen_unit(s, q, false).text());
            return match s.below(6) {
                0..=2 if p != q && !TWICE.contains(&u.as_str()) && !TWICE.contains(&v.as_str()) => C19Case::None(u, v),
                3 => {
                    let w = *s.pick(TWICE);
                    C19Case::None(w.into(), w.into())
                }
                _ => {
                    // no unit at all
                    let mut w = gen_unit(s, p, false).text();
                    match s.below(6) {
                        0 => w.push('x'),
                        1 => w.insert(0, ' '),
                        2 => w.clear(),
                        3 => w += "/",
                        4 => w += "^4",
                        _ => w = w.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>() + "Q",
                    }
                    if s.chance(1, 2) { C19Case::None(w, v) } else { C19Case::None(u, w) }
                }
            };
        }
        let q = pick(s);
        C19Case::Three(q.into(), gen_unit(s, q, false), gen_unit(s, q, false), gen_unit(s, q, false))
    }

    fn check(c: &C19Case) -> Checked {
        match c {
            C19Case::Tables => {
                let (raw, all): (HashMap<_, _>, HashMap<_, _>) = (raw_unit_data(), unit_data());
                for (q, us) in &all {
                    for (u, v) in us {
                        ensure!(v.is_finite() && *v > 0.0, "the unit {u} of {q} has the size {v:?}");
                    }
                }
                for (q, us) in &raw {
                    for u in us.keys() {
                        ensure!(all.get(q).is_some_and(|t| t.contains_key(u)), "the unit {u} of {q} is lost");
                    }
                }
                for (q, us) in TABLE {
                    for (u, _) in *us {
                        ensure!(all.get(*q).is_some_and(|t| t.contains_key(*u)), "the unit {u} of {q} is missing");
                    }
                }
                ok(true, vec!["tables"])
            }
            C19Case::Quantity(i) => {
                let (_, us) = TABLE[*i];
                for (a, va) in us {
                    for (b, vb) in us {
                        if a == b && TWICE.contains(a) {
                            continue;
                        }
                        let f = factor(a, b)?;
                        if *va > 0.0 && *vb > 0.0 {
                            ensure!(close(f, va / vb, AGREE, 0.0), "{a} to {b} is {f:?}, published as {:?}", va / vb);
                        }
                    }
                }
                ok(us.len() > 1, vec!["all pairs"])
            }
            C19Case::None(a, b) => {
                if let Ok(v) = convert(a, b) {
                    fail!("{a:?} is converted to {b:?} by {v:?}");
                }
                ok(true, vec!["refused"])
            }
            C19Case::Three(_, u, v, w) => {
                let (a, b, d) = (u.text(), v.text(), w.text());
                let twice = |x: &str, y: &str| x == y && TWICE.contains(&x);
                if twice(&a, &b) || twice(&b, &d) || twice(&a, &d) {
                    return ok(false, vec!["two quantities"]);
                }
                if !TWICE.contains(&a.as_str()) {
                    let one = factor(&a, &a)?;
                    ensure!((one - 1.0).abs() < 1e-15, "{a} to {a} is {one:?}");
                }
                let (ab, bd, ad, ba) = (factor(&a, &b)?, factor(&b, &d)?, factor(&a, &d)?, factor(&b, &a)?);
                ensure!((ab * ba - 1.0).abs() < 1e-14, "{a} to {b} is {ab:?}, and back {ba:?}");
                ensure!(close(ab * bd, ad, 1e-14, 0.0), "{a} to {b} to {d} is {:?}, {a} to {d} is {ad:?}", ab * bd);
                if let Some(f) = by_parts(u, v)? {
                    ensure!(close(ab, f, 1e-13, 0.0), "{a} to {b} is {ab:?}, its parts give {f:?}");
                }
                if u.value() > 0.0 && v.value() > 0.0 {
                    // the error of a part counts as often as the part
                    ensure!(close(ab, u.value() / v.value(), 4.0 * AGREE, 0.0), "{a} to {b} is {ab:?}, published as {:?}", u.value() / v.value());
                }
                let derived = |x: &Unit| !matches!(x, Unit::Named(..));
                ok(derived(u) || derived(v), vec![if derived(u) || derived(v) { "derived" } else { "named" }])
            }
        }
    }
}
