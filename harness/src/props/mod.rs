use crate::engine::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
pub mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
pub use c11::TYPES;

pub static ALL: &[&Prop] = &[&c01::P, &c02::P, &c03::P, &c04::P, &c05::P, &c06::P, &c07::P, &c08::P, &c09::P, &c10::P, &c11::P, &c12::P, &c13::P, &c14::P, &c15::P, &c16::P, &c17::P, &c18::P, &c19::P, &c20::P, &c21::P, &c22::P, &c23::P, &c24::P, &c25::P, &c26::P, &c27::P, &c28::P];
