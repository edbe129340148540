//! The same checks against the library built with its pure Rust big number backend.
#![allow(dead_code)]
#[path = "../../cl/src/c01.rs"]
mod c01;
#[path = "../../cl/src/c02.rs"]
mod c02;
#[path = "../../cl/src/c03.rs"]
mod c03;
#[path = "../../cl/src/large.rs"]
mod large;
#[path = "../../cl/src/n01.rs"]
mod n01;
#[path = "../../cl/src/world.rs"]
mod world;
use mc::*;

fn build(t: Tier) -> Check {
    let mut c = n01::build(t);
    c.scenarios.extend(c01::build(t).scenarios);
    c.scenarios.extend(c02::build(t).scenarios);
    c.scenarios.extend(c03::build(t).scenarios);
    // its issuer has attributes other than the stored keys are for
    c.scenarios.retain(|s| s.name != "names");
    if t == Tier::Quick {
        c.scenarios.retain(|s| s.name != "tamper" && s.name != "pairs" && s.name != "many");
    }
    c
}
fn main() {
    mc::main(&[("N02", build)]);
}
