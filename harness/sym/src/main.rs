mod e01;
mod h04;
mod k01;
mod k02;
mod k03;
mod s01;
mod s03;
mod s04;
#[global_allocator]
static A: k02::Watch = k02::Watch;
fn main() {
    if std::env::var("SYM_CHILD").is_ok() {
        return s01::serial_child();
    }
    mc::main(&[("E01", e01::build), ("S01", s01::build), ("K01", k01::build), ("K02", k02::build), ("K03", k03::build), ("H04", h04::build), ("S03", s03::build), ("S04", s04::build)]);
}
