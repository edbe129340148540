//! E02: the native cipher backends (OpenSSL, libsodium): the same check as E01.
#[path = "../../sym/src/e01.rs"]
mod e01;
fn main() {
    mc::main(&[("E02", e01::build)]);
}
