//! Tiny fields and groups behind the library's public traits, small enough that
//! secrets, random coefficients and shares can be enumerated completely.
use rand::{CryptoRng, RngCore};
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::{Field, Group};
use ursa_sharing::generic_array::{typenum::U1, GenericArray};

pub fn pw(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    b %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m;
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}

/// The prime field of order Q. Values >= Q can be constructed, to play invalid inputs.
#[derive(Debug, Clone, PartialEq)]
pub struct F<const Q: u64>(pub u64);

impl<const Q: u64> Group for F<Q> {
    type Size = U1;
    fn zero() -> Self {
        F(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let b = value.as_ref();
        if b.len() != 1 {
            return Err(SharingError::ShareInvalidValue);
        }
        Ok(F(b[0] as u64))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        F(rng.next_u64() % Q)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0 && self.0 < Q
    }
    fn negate(&mut self) {
        self.0 = (Q - self.0 % Q) % Q;
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = (self.0 + rhs.0) % Q;
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = (self.0 + Q - rhs.0 % Q) % Q;
    }
    fn scalar_mul_assign(&mut self, rhs: &Self) {
        self.0 = self.0 * rhs.0 % Q;
    }
    fn to_bytes(&self) -> GenericArray<u8, U1> {
        GenericArray::clone_from_slice(&[self.0 as u8])
    }
}
impl<const Q: u64> Field for F<Q> {
    fn one() -> Self {
        F(1)
    }
    fn from_usize(value: usize) -> Self {
        F(value as u64 % Q)
    }
    fn scalar_div_assign(&mut self, rhs: &Self) {
        self.0 = self.0 * pw(rhs.0, Q - 2, Q) % Q;
    }
}

/// The subgroup of order Q of the multiplicative group modulo P, written additively.
#[derive(Debug, Clone, PartialEq)]
pub struct M<const Q: u64, const P: u64>(pub u64);

impl<const Q: u64, const P: u64> M<Q, P> {
    pub fn gen() -> u64 {
        for x in 2..P {
            let y = pw(x, (P - 1) / Q, P);
            if y != 1 {
                return y;
            }
        }
        unreachable!()
    }
    pub fn all() -> Vec<u64> {
        (0..Q).map(|e| pw(Self::gen(), e, P)).collect()
    }
}
impl<const Q: u64, const P: u64> Group<F<Q>> for M<Q, P> {
    type Size = U1;
    fn zero() -> Self {
        M(1)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let b = value.as_ref();
        if b.len() != 1 || b[0] as u64 >= P || pw(b[0] as u64, Q, P) != 1 {
            return Err(SharingError::InvalidPoint);
        }
        Ok(M(b[0] as u64))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        M(pw(Self::gen(), 1 + rng.next_u64() % (Q - 1), P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 1
    }
    fn is_valid(&self) -> bool {
        self.0 != 1
    }
    fn negate(&mut self) {
        self.0 = pw(self.0, P - 2, P);
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = self.0 * rhs.0 % P;
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = self.0 * pw(rhs.0, P - 2, P) % P;
    }
    fn scalar_mul_assign(&mut self, rhs: &F<Q>) {
        self.0 = pw(self.0, rhs.0, P);
    }
    fn to_bytes(&self) -> GenericArray<u8, U1> {
        GenericArray::clone_from_slice(&[self.0 as u8])
    }
}

/// A random source whose answers are the given list: the enumerated environment.
pub struct Script {
    pub v: Vec<u64>,
    pub at: usize,
}
impl Script {
    pub fn new(v: &[u64]) -> Script {
        Script { v: v.to_vec(), at: 0 }
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.v.get(self.at).cloned().unwrap_or(0);
        self.at += 1;
        x
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Script {}

/// All tuples of length k over 0..q.
pub fn tuples(q: u64, k: usize) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        let mut n = vec![];
        for t in &out {
            for x in 0..q {
                let mut t2: Vec<u64> = t.clone();
                t2.push(x);
                n.push(t2);
            }
        }
        out = n;
    }
    out
}
/// Reference: value at x of the polynomial with the given coefficients.
pub fn eval(c: &[u64], x: u64, q: u64) -> u64 {
    c.iter().rev().fold(0, |a, k| (a * x + k) % q)
}
/// Reference: the value at 0 of the polynomial through the points (distinct x mod q).
pub fn lagrange0(pts: &[(u64, u64)], q: u64) -> u64 {
    let mut s = 0;
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let mut num = 1;
        let mut den = 1;
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                num = num * (xj % q) % q;
                den = den * ((xj + q - xi % q) % q) % q;
            }
        }
        s = (s + yi * num % q * pw(den, q - 2, q)) % q;
    }
    s
}
/// Reference: the coefficients of the polynomial of degree < len through the points.
pub fn interp(pts: &[(u64, u64)], q: u64) -> Vec<u64> {
    let n = pts.len();
    let mut out = vec![0u64; n];
    for i in 0..n {
        // basis polynomial prod (x - xj)/(xi - xj)
        let mut b = vec![0u64; n];
        b[0] = 1;
        let mut deg = 0;
        let mut den = 1;
        for j in 0..n {
            if i == j {
                continue;
            }
            let m = (q - pts[j].0 % q) % q;
            for k in (0..=deg).rev() {
                let v = b[k];
                b[k + 1] = (b[k + 1] + v) % q;
                b[k] = v * m % q;
            }
            deg += 1;
            den = den * ((pts[i].0 + q - pts[j].0 % q) % q) % q;
        }
        let f = pts[i].1 * pw(den, q - 2, q) % q;
        for k in 0..n {
            out[k] = (out[k] + b[k] * f) % q;
        }
    }
    out
}
