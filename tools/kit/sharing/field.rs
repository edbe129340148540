//! A field of about 2^31 elements and the subgroup of that order modulo 2q+1.
use rand::{CryptoRng, RngCore};
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::generic_array::{typenum::U8, GenericArray};
use ursa_sharing::{Field, Group};

pub fn pw(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    b %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m;
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}
pub const Q: u64 = 2147483543;
pub const P: u64 = 4294967087;

fn num<B: AsRef<[u8]>>(v: B) -> SharingResult<u64> {
    let b = v.as_ref();
    if b.len() != 8 {
        return Err(SharingError::ShareInvalidValue);
    }
    let mut a = [0u8; 8];
    a.copy_from_slice(b);
    Ok(u64::from_be_bytes(a))
}

#[derive(Debug, Clone, PartialEq)]
pub struct W(pub u64);
impl Group for W {
    type Size = U8;
    fn zero() -> Self {
        W(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        num(v).map(W)
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        W(1 + rng.next_u64() % (Q - 1))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0 && self.0 < Q
    }
    fn negate(&mut self) {
        self.0 = (Q - self.0 % Q) % Q
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % Q
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + Q - r.0 % Q) % Q
    }
    fn scalar_mul_assign(&mut self, r: &Self) {
        self.0 = self.0 * r.0 % Q
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        GenericArray::clone_from_slice(&self.0.to_be_bytes())
    }
}
impl Field for W {
    fn one() -> Self {
        W(1)
    }
    fn from_usize(v: usize) -> Self {
        W(v as u64 % Q)
    }
    fn scalar_div_assign(&mut self, r: &Self) {
        self.0 = self.0 * pw(r.0, Q - 2, Q) % Q
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct V(pub u64);
pub fn gen() -> u64 {
    4
}
impl Group<W> for V {
    type Size = U8;
    fn zero() -> Self {
        V(1)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let x = num(v)?;
        if x == 0 || x >= P || pw(x, Q, P) != 1 {
            return Err(SharingError::InvalidPoint);
        }
        Ok(V(x))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        V(pw(gen(), 1 + rng.next_u64() % (Q - 1), P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 1
    }
    fn is_valid(&self) -> bool {
        self.0 != 1
    }
    fn negate(&mut self) {
        self.0 = pw(self.0, P - 2, P)
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = self.0 * r.0 % P
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = self.0 * pw(r.0, P - 2, P) % P
    }
    fn scalar_mul_assign(&mut self, r: &W) {
        self.0 = pw(self.0, r.0, P)
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        GenericArray::clone_from_slice(&self.0.to_be_bytes())
    }
}

/// A reproducible stream of random answers (splitmix64).
pub struct Stream(pub u64);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Stream {}
