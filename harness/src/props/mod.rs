use crate::engine::Prop;
mod autom;
mod c01;
mod c02;
mod c06;
mod c07;
mod c08;
mod c09;
mod c11;
mod c12;
mod c15;
mod c17;
mod c20;
mod c03;
mod c05;
mod c18;
mod c19;
mod c04;
mod c13;
mod c10;
mod c14;
mod c16;
mod parts;
mod strs;

pub fn all() -> Vec<Prop> {
    vec![
        c01::prop(), c02::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c11::prop(), c12::prop(), c15::prop(), c17::prop(), c03::prop(), c05::prop(), c18::prop(), c19::prop(), c04::prop(), c13::prop(), c10::prop(), c14::prop(), c16::prop(), c20::prop(),
    ]
}
