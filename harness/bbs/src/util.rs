//! Shared pieces: fixed keys, messages and signatures, and the layout of proofs as bytes.
use bbs::prelude::*;
use bbs::keys::KeyGenOption;
use ff_zeroize::{Field, PrimeField};
use mc::*;
use pairing_plus::bls12_381::{Fr, FrRepr};
use pairing_plus::serdes::SerDes;

pub type M = SignatureMessage;
pub fn fr(n: u64) -> Fr { Fr::from_repr(FrRepr::from(n)).unwrap() }
/// Message number `i`: hashes, and the edges of the field.
pub fn msg(i: usize) -> M {
    match i {
        0 => M::hash(b"zeroth"),
        1 => M::from(Fr::zero()),
        2 => M::hash(b"second"),
        3 => { let mut x = fr(1); x.negate(); M::from(x) }
        4 => M::from(fr(1)),
        _ => M::hash(format!("message {}", i)),
    }
}
pub fn keys(seed: usize, n: usize) -> (PublicKey, SecretKey) {
    static C: Memo<(usize, usize), (PublicKey, SecretKey)> = Memo::new();
    (*C.of(&(seed, n), || {
        let (d, s) = Issuer::new_short_keys(Some(KeyGenOption::UseSeed(vec![seed as u8; 16]))).unwrap();
        (d.to_public_key(n).unwrap(), s)
    })).clone()
}
pub fn fr_bytes(x: &Fr) -> Vec<u8> { let mut v = vec![]; x.serialize(&mut v, true).unwrap(); v }
pub fn fr_of(b: &[u8]) -> Fr { Fr::deserialize(&mut &b[..], true).unwrap() }
pub type V<T> = Result<T, Violation>;
/// A verdict of the library: an error counts as a refusal, a panic is a violation.
pub fn verdict<E>(c: &mut Ctx, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<bool, E>) -> V<bool> {
    c.step();
    match guard(f) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(_)) => Ok(false),
        Err(p) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), p)),
    }
}
pub fn expect<E>(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<bool, E>) -> R {
    let b = verdict(c, key, &what, f)?;
    c.ensure(b == want, key, || format!("{}: {}", what(), if b { "accepted" } else { "refused" }))
}
