mod b01;
mod b02;
mod b03;
mod large;
mod util;
fn main() {
    mc::main(&[("B01", b01::build), ("B02", b02::build), ("B03", b03::build)]);
}
