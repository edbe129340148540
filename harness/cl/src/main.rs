mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod forge;
mod large;
mod n01;
mod n03;
mod world;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("keys") {
        return world::print_keys();
    }
    if std::env::args().nth(1).as_deref() == Some("golden") {
        return c08::print_golden();
    }
    mc::main(&[("C01", c01::build), ("C02", c02::build), ("C03", c03::build), ("C04", c04::build), ("C05", c05::build), ("C06", c06::build), ("C07", c07::build), ("C08", c08::build), ("N01", n01::build), ("N03", n03::build)]);
}
