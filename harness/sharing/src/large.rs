//! A field of about 2^31 elements and the order-q subgroup modulo 2q+1: large enough for many
//! shares, large thresholds and identifiers beyond one and two bytes.
use crate::fields::*;
use mc::{violation, Ctx, R};
use rand::{CryptoRng, RngCore};
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::feldman::Scheme as Feldman;
use ursa_sharing::generic_array::{typenum::U8, GenericArray};
use ursa_sharing::pedersen::Scheme as Pedersen;
use ursa_sharing::shamir::{Scheme, Share};
use ursa_sharing::{Field, Group};

pub const Q: u64 = 2147483543;
pub const P: u64 = 4294967087;

fn num<B: AsRef<[u8]>>(v: B) -> SharingResult<u64> {
    let b = v.as_ref();
    if b.len() != 8 {
        return Err(SharingError::ShareInvalidValue);
    }
    let mut a = [0u8; 8];
    a.copy_from_slice(b);
    Ok(u64::from_be_bytes(a))
}

#[derive(Debug, Clone, PartialEq)]
pub struct W(pub u64);
impl Group for W {
    type Size = U8;
    fn zero() -> Self {
        W(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        num(v).map(W)
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        W(1 + rng.next_u64() % (Q - 1))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0 && self.0 < Q
    }
    fn negate(&mut self) {
        self.0 = (Q - self.0 % Q) % Q
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % Q
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + Q - r.0 % Q) % Q
    }
    fn scalar_mul_assign(&mut self, r: &Self) {
        self.0 = self.0 * r.0 % Q
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        GenericArray::clone_from_slice(&self.0.to_be_bytes())
    }
}
impl Field for W {
    fn one() -> Self {
        W(1)
    }
    fn from_usize(v: usize) -> Self {
        W(v as u64 % Q)
    }
    fn scalar_div_assign(&mut self, r: &Self) {
        self.0 = self.0 * pw(r.0, Q - 2, Q) % Q
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct V(pub u64);
pub fn gen() -> u64 {
    4
}
impl Group<W> for V {
    type Size = U8;
    fn zero() -> Self {
        V(1)
    }
    fn from_bytes<B: AsRef<[u8]>>(v: B) -> SharingResult<Self> {
        let x = num(v)?;
        if x == 0 || x >= P || pw(x, Q, P) != 1 {
            return Err(SharingError::InvalidPoint);
        }
        Ok(V(x))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        V(pw(gen(), 1 + rng.next_u64() % (Q - 1), P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 1
    }
    fn is_valid(&self) -> bool {
        self.0 != 1
    }
    fn negate(&mut self) {
        self.0 = pw(self.0, P - 2, P)
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = self.0 * r.0 % P
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = self.0 * pw(r.0, P - 2, P) % P
    }
    fn scalar_mul_assign(&mut self, r: &W) {
        self.0 = pw(self.0, r.0, P)
    }
    fn to_bytes(&self) -> GenericArray<u8, U8> {
        GenericArray::clone_from_slice(&self.0.to_be_bytes())
    }
}

/// A reproducible stream of random answers (splitmix64).
pub struct Stream(pub u64);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Stream {}

fn val(s: &Share) -> u64 {
    num(s.value()).unwrap_or(u64::MAX)
}
fn sh(id: u64, v: u64) -> Share {
    Share::new(id as usize, v.to_be_bytes())
}

/// The polynomial of one split, with everything about the split checked.
fn judge(c: &mut Ctx, shares: &[Share], t: usize, n: usize, what: &str) -> R<Vec<u64>> {
    c.same(shares.len(), n, "split:count", "number of shares")?;
    let pts: Vec<(u64, u64)> = shares.iter().map(|s| (s.identifier() as u64, val(s))).collect();
    let ids: std::collections::BTreeSet<u64> = pts.iter().map(|p| p.0).collect();
    c.ensure(ids.len() == n && ids.iter().all(|i| *i >= 1 && *i <= n as u64), "split:identifiers", || format!("{}: identifiers are not 1..={}", what, n))?;
    let poly = interp(&pts[..t], Q);
    for (x, y) in &pts {
        if *y != eval(&poly, *x, Q) {
            return violation("split:value", format!("{} t={} n={}: share {} is off the polynomial of the first t shares", what, t, n, x));
        }
    }
    Ok(poly)
}
/// Coefficients above the constant are drawn afresh: with distinct answers from the random
/// source they are distinct from one another, from zero and from the constant.
fn fresh(c: &mut Ctx, poly: &[u64], more: &[u64], what: &str) -> R {
    let mut all: Vec<u64> = poly.to_vec();
    all.extend(more);
    let set: std::collections::BTreeSet<u64> = all.iter().cloned().collect();
    c.ensure(set.len() == all.len() && !set.contains(&0), "split:coefficients-related", || format!("{}: coefficients {:?} are not fresh", what, all))
}

/// Which subsets of 1..=n to combine: windows around the interesting identifiers.
fn windows(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for mid in [0usize, 1, 127, 128, 253, 254, 255, 256, 257, 511, 65533, 65534, 65535, 65536, n] {
        let lo = mid.min(n - k);
        let w: Vec<usize> = (lo..lo + k).collect();
        let mut r = w.clone();
        r.reverse();
        out.push(w);
        out.push(r);
        // and spread: first, then at multiples of 256 and 65536 of the same residue
        let mut s: Vec<usize> = vec![];
        for st in [0usize, 256, 65536, 512, 1, 257, 65537, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
            let x = (mid % 256) + st;
            if x < n && s.len() < k && !s.contains(&x) {
                s.push(x);
            }
        }
        if s.len() == k {
            out.push(s);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn sizes(c: &mut Ctx) -> (usize, usize) {
    let t = c.pick("t", &[2usize, 3, 4, 5, 6, 7, 8, 12]);
    let mut ns = vec![t, t + 1, 300];
    if t <= 3 || c.thorough() {
        ns.push(66_000);
    }
    (t, c.pick("n", &ns))
}

pub fn shamir(c: &mut Ctx) -> R {
    let (t, n) = sizes(c);
    let seed = c.choose("seed", 3) as u64;
    let secret = c.pick("secret", &[1u64, 255, 65536, 123456789, Q - 1]);
    let s = Scheme::new(t, n).unwrap();
    let shares = match s.split_secret(&mut Stream(seed), &W(secret)) {
        Ok(x) => x,
        Err(e) => return violation("split:refused", format!("t={} n={}: {:?}", t, n, e)),
    };
    let poly = judge(c, &shares, t, n, "shamir")?;
    c.same(poly[0], secret, "split:intercept", "secret on the polynomial")?;
    fresh(c, &poly, &[], "shamir")?;
    c.state(&(t, n, &poly));
    for k in (0..=t + 2).filter(|k| *k <= n) {
        for w in if k == 0 { vec![vec![]] } else { windows(n, k) } {
            let pick: Vec<Share> = w.iter().map(|i| shares[*i].clone()).collect();
            c.eval(1);
            match s.combine_shares::<W, W>(&pick) {
                Ok(v) => {
                    c.ensure(k >= t, "combine:too-few", || format!("{} shares combined with threshold {}", k, t))?;
                    c.ensure(v.0 == secret, "combine:wrong", || format!("t={} n={} shares {:?}: got {} want {}", t, n, w, v.0, secret))?;
                }
                Err(e) => c.ensure(k < t, "combine:refused", || format!("t={} n={} shares {:?}: {:?}", t, n, w, e))?,
            }
            // in the group
            let gp: Vec<Share> = pick.iter().map(|x| sh(x.identifier() as u64, pw(gen(), val(x), P))).collect();
            match s.combine_shares::<W, V>(&gp) {
                Ok(v) => c.ensure(k >= t && v.0 == pw(gen(), secret, P), "combine:group", || format!("t={} n={} shares {:?}", t, n, w))?,
                Err(e) => c.ensure(k < t, "combine:group-refused", || format!("t={} n={} shares {:?}: {:?}", t, n, w, e))?,
            }
            // one share twice, at every distance; one identifier 0; one share not a field element
            if k >= t {
                for i in 0..k {
                    for j in 0..i {
                        let mut d = pick.clone();
                        d[i] = d[j].clone();
                        c.ensure(s.combine_shares::<W, W>(&d).is_err(), "combine:duplicate", || format!("t={} {} shares: number {} repeats number {}", t, k, i, j))?;
                    }
                    for (key, bad) in vec![("zero", sh(0, val(&pick[i]))), ("range", sh(pick[i].identifier() as u64, Q)), ("length", Share::new(pick[i].identifier() as usize, [1u8]))] {
                        let mut d = pick.clone();
                        d[i] = bad;
                        c.ensure(s.combine_shares::<W, W>(&d).is_err(), &format!("combine:{}", key), || format!("t={} {} shares: number {} is bad ({})", t, k, i, key))?;
                    }
                }
            }
        }
    }
    if n <= 300 {
        match s.combine_shares::<W, W>(&shares) {
            Ok(v) => c.same(v.0, secret, "combine:wrong", "all shares combined")?,
            Err(e) => return violation("combine:refused", format!("all {} shares: {:?}", n, e)),
        }
    }
    c.outcome(format!("t={} n={}", t, n));
    Ok(())
}

/// Judge candidate shares around every interesting identifier.
fn near(n: usize) -> Vec<u64> {
    [1u64, 2, 3, 255, 256, 257, 258, 299, 300, 512, 65535, 65536, 65537, 65792].iter().cloned().filter(|x| *x <= n as u64).collect()
}

pub fn vss(c: &mut Ctx) -> R {
    let (t, n) = sizes(c);
    let seed = c.choose("seed", 2) as u64;
    let secret = c.pick("secret", &[1u64, 65536, Q - 1]);
    let ped = c.flag("pedersen");
    let given = c.choose("generators given", if ped { 4 } else { 2 });
    let g0 = pw(gen(), 11, P);
    let h0 = pw(gen(), 7, P);
    let (g, h, polys, comms, judge_one): (u64, u64, Vec<Vec<u64>>, Vec<u64>, Box<dyn Fn(u64, u64, u64) -> bool>) = if ped {
        let s = Pedersen::new(t, n).unwrap();
        let run = |seed: u64| s.split_secret::<W, V>(&mut Stream(seed), &W(secret), if given & 1 == 1 { Some(V(g0)) } else { None }, if given & 2 == 2 { Some(V(h0)) } else { None });
        let r = match run(seed) {
            Ok(x) => x,
            Err(e) => return violation("pedersen:split", format!("t={} n={}: {:?}", t, n, e)),
        };
        let p = judge(c, &r.secret_shares, t, n, "pedersen secret")?;
        let b = judge(c, &r.blinding_shares, t, n, "pedersen blinding")?;
        c.same((p[0], b[0]), (secret, r.blinding.0), "pedersen:intercepts", "secret and blinding factor on the polynomials")?;
        fresh(c, &p, &b, "pedersen")?;
        let (g, h) = (r.verifier.g.0, r.verifier.h.0);
        c.ensure(given & 1 == 0 || g == g0, "pedersen:generators", || "g is not the one given".into())?;
        c.ensure(given & 2 == 0 || h == h0, "pedersen:generators", || "h is not the one given".into())?;
        // chosen by the scheme: drawn afresh, not related in an obvious way
        c.ensure(g != 1 && h != 1, "pedersen:generators-trivial", || format!("g={} h={}", g, h))?;
        if given != 3 {
            let known: Vec<u64> = (0..64u64).flat_map(|k| vec![pw(g, k, P), pw(pw(g, k, P), P - 2, P)]).collect();
            c.ensure(!known.contains(&h), "pedersen:generators-related", || format!("h={} is a small power of g={}", h, g))?;
            for a in p.iter().chain(b.iter()) {
                c.ensure(pw(g, *a, P) != h, "pedersen:generators-related", || format!("h={} is g to a coefficient", h))?;
            }
            if let Ok(o) = run(seed + 100) {
                c.ensure(given & 1 == 1 || o.verifier.g.0 != g, "pedersen:generators-fixed", || "g does not depend on the random source".into())?;
                c.ensure(given & 2 == 2 || o.verifier.h.0 != h, "pedersen:generators-fixed", || "h does not depend on the random source".into())?;
            }
        }
        let cs: Vec<u64> = r.verifier.commitments.iter().map(|x| num(x.to_bytes()).unwrap_or(0)).collect();
        let ver = r.verifier;
        (g, h, vec![p, b], cs, Box::new(move |id, v, w| s.verify_share(&sh(id, v), &sh(id, w), &ver).is_ok()))
    } else {
        let s = Feldman::new(t, n).unwrap();
        let (ver, shares) = match s.split_secret::<W, V>(&mut Stream(seed), &W(secret), if given == 1 { Some(V(g0)) } else { None }) {
            Ok(x) => x,
            Err(e) => return violation("feldman:split", format!("t={} n={}: {:?}", t, n, e)),
        };
        let p = judge(c, &shares, t, n, "feldman")?;
        c.same(p[0], secret, "split:intercept", "secret on the polynomial")?;
        fresh(c, &p, &[], "feldman")?;
        let g = ver.g.0;
        c.ensure(given == 0 || g == g0, "feldman:generator", || "g is not the one given".into())?;
        c.ensure(g != 1, "feldman:generator", || "g is the identity".into())?;
        let cs: Vec<u64> = ver.commitments.iter().map(|x| num(x.to_bytes()).unwrap_or(0)).collect();
        (g, 1, vec![p], cs, Box::new(move |id, v, _| s.verify_share(&sh(id, v), &ver).is_ok()))
    };
    let want: Vec<u64> = (0..t).map(|i| pw(g, polys[0][i], P) * polys.get(1).map_or(1, |b| pw(h, b[i], P)) % P).collect();
    c.same(comms, want, "vss:commitments", "commitments to the coefficients")?;
    c.state(&(t, n, ped, given, &polys));
    for id in near(n) {
        let v = eval(&polys[0], id, Q);
        let w = polys.get(1).map_or(0, |b| eval(b, id, Q));
        c.eval(1);
        c.ensure(judge_one(id, v, w), "vss:honest-refused", || format!("ped={} t={} n={}: the share of holder {} is refused", ped, t, n, id))?;
        // another value, another holder's identifier, swapped or shifted values
        for (i2, v2, w2) in vec![
            (id, (v + 1) % Q, w),
            (id, v, if ped { (w + 1) % Q } else { w }),
            (id + 1, v, w),
            (id + 256, v, w),
            (id + 65536, v, w),
            (id & 0xff, v, w),
            (id & 0xffff, v, w),
            (id, if ped { w } else { secret }, v),
            (id, v, if ped { (w + 256) % Q } else { w }),
            (id, v + Q, w),
        ] {
            let same = i2 == id && v2 == v && (w2 == w || !ped);
            if same {
                continue;
            }
            c.eval(1);
            c.ensure(!judge_one(i2, v2, w2), "vss:wrong-accepted", || format!("ped={} t={} n={}: ({},{},{}) accepted, holder {} has ({},{})", ped, t, n, i2, v2, w2, id, v, w))?;
        }
    }
    c.outcome(format!("ped={} t={} n={}", ped, t, n));
    Ok(())
}
