//! The C API against the Rust API.
#![allow(dead_code)]
mod abi;
mod cl;
mod logs;
mod mem;
mod misuse;
mod prims;
#[path = "../../cl/src/world.rs"]
mod world;

#[global_allocator]
static A: mem::Watch = mem::Watch;

fn main() {
    mc::main(&[("F01", cl::build), ("F02", prims::build), ("F03", misuse::build), ("F04", logs::build)]);
}
