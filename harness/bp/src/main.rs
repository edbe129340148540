#![allow(non_snake_case)]
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod util;
fn main() {
    mc::main(&[("P01", p01::build), ("P02", p02::build), ("P03", p03::build), ("P04", p04::build), ("P05", p05::build)]);
}
