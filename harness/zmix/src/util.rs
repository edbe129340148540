//! Shared pieces: small field elements and verdicts of the library.
pub use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
pub use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use mc::*;
pub type F = FieldElement;
pub type V<T> = Result<T, Violation>;
pub fn f(n: i64) -> F { if n < 0 { F::from(n.unsigned_abs()).negation() } else { F::from(n as u64) } }
/// The integers -9..=99 by name, everything else in hexadecimal.
pub fn name(x: &F) -> String {
    let mut y = x.clone();
    y.normalize();
    for i in -9..100 { if f(i) == y { return i.to_string() } }
    y.to_hex()
}
pub fn names(x: &[F]) -> String { format!("[{}]", x.iter().map(name).collect::<Vec<_>>().join(" ")) }
/// Message values: small, negative, large.
pub fn val(i: usize) -> F {
    match i { 0 => f(0), 1 => f(1), 2 => f(-1), 3 => F::from_msg_hash(b"a value"), _ => F::from_msg_hash(format!("value {}", i).as_bytes()) }
}
pub fn vals(pat: usize, n: usize) -> Vec<F> {
    (0..n).map(|i| val(match pat { 0 => 3 + i, 1 => 1, _ => i % 4 })).collect()
}
/// A verdict of the library: an error counts as a refusal, a panic is a violation.
pub fn verdict<T, E>(c: &mut Ctx, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> V<Option<T>> {
    c.step();
    match guard(f) {
        Ok(Ok(x)) => Ok(Some(x)),
        Ok(Err(_)) => Ok(None),
        Err(p) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), p)),
    }
}
/// A verification: accepted is `Ok(true)`.
pub fn expect<E>(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<bool, E>) -> R {
    let b = verdict(c, key, &what, f)? == Some(true);
    c.ensure(b == want, key, || format!("{}: {}", what(), if b { "accepted" } else { "refused" }))
}
/// Whether something could be made at all.
pub fn makes<T, E>(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> R {
    let b = verdict(c, key, &what, f)?.is_some();
    c.ensure(b == want, key, || format!("{}: {}", what(), if b { "accepted" } else { "refused" }))
}
/// Something that has to be made.
pub fn made<T, E: std::fmt::Debug>(c: &mut Ctx, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<T, E>) -> V<T> {
    c.step();
    match guard(f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => violation(key, format!("{}: {:?}", what(), e)),
        Err(p) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), p)),
    }
}
