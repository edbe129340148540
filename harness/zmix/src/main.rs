#![allow(non_snake_case)]
mod large;
mod util;
mod z01;
mod z02;
mod z03;
mod z04;
mod z05;
mod z06;
fn main() {
    mc::main(&[("Z01", z01::build), ("Z02", z02::build), ("Z03", z03::build), ("Z04", z04::build), ("Z05", z05::build), ("Z06", z06::build)]);
}
