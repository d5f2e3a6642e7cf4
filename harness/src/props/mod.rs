pub mod expressions;
pub mod headers;
pub mod json;
pub mod matrix;
pub mod newton;
pub mod nodal;
pub mod parts;
pub mod procedure;
pub mod programs;
pub mod scratch;
pub mod solving;
pub mod tools;
pub mod units;

use crate::engine::{def, PropDef};

pub static ALL: &[PropDef] = &[
    def::<matrix::C01>(),
    def::<matrix::C02>(),
    def::<matrix::C03>(),
    def::<matrix::C04>(),
    def::<matrix::C05>(),
    def::<expressions::C06>(),
    def::<expressions::C07>(),
    def::<expressions::C08>(),
    def::<expressions::C09>(),
    def::<newton::C10>(),
    def::<newton::C11>(),
    def::<solving::C12>(),
    def::<solving::C13>(),
    def::<solving::C14>(),
    def::<solving::C15>(),
    def::<programs::C16>(),
    def::<programs::C17>(),
    def::<programs::C18>(),
    def::<units::C19>(),
    def::<tools::C20>(),
    def::<nodal::C21>(),
    def::<nodal::C22>(),
    def::<nodal::C23>(),
    def::<nodal::C24>(),
    def::<nodal::C25>(),
    def::<nodal::C26>(),
    def::<parts::C27>(),
    def::<procedure::C28>(),
    def::<headers::C29>(),
];
