//! N01/N02: the big number adapter computes what integers say (shared by both backends).
use mc::*;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;
use ursa::bn::BigNumber;
use ursa::errors::UrsaCryptoError;

type U<T> = Result<T, UrsaCryptoError>;
fn b(v: &BigInt) -> BigNumber {
    BigNumber::from_dec(&v.to_string()).expect("from_dec")
}
fn two(p: usize) -> BigInt {
    BigInt::one() << p
}
fn edges(t: Tier) -> Vec<BigInt> {
    let mut v = vec![];
    let small = if t == Tier::Quick { 17 } else { 40 };
    for k in 0..=small {
        v.push(BigInt::from(k));
    }
    for p in &[8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 256, 596, 1024, 2048] {
        v.push(two(*p) - 1);
        v.push(two(*p));
        v.push(two(*p) + 1);
    }
    for k in &[100, 255, 1000, 65537, 999983] {
        v.push(BigInt::from(*k));
    }
    v.push(two(255) - 19);
    let neg: Vec<BigInt> = v.iter().filter(|x| !x.is_zero()).map(|x| -x).collect();
    v.extend(neg);
    v
}
/// The result must be the number, and a well-formed one (no negative zero, equal to its own copy).
fn is(c: &mut Ctx, got: Result<U<BigNumber>, String>, want: Option<BigInt>, key: &str, what: &dyn Fn() -> String) -> R {
    c.step();
    match (got, want) {
        (Err(p), _) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), p)),
        (Ok(Err(e)), Some(w)) => violation(format!("{}:error", key), format!("{} is {}, but: {}", what(), w, e)),
        (Ok(Err(_)), None) => Ok(()),
        (Ok(Ok(g)), None) => violation(format!("{}:value", key), format!("{} has no value, but is said to be {:?}", what(), g.to_dec())),
        (Ok(Ok(g)), Some(w)) => {
            let d = g.to_dec().unwrap_or_default();
            if d != w.to_string() {
                return violation(format!("{}:value", key), format!("{} is {}, not {}", what(), w, d));
            }
            if g != b(&w) || g.is_negative() != w.is_negative() {
                return violation(format!("{}:form", key), format!("{}: the result {} does not equal itself", what(), d));
            }
            Ok(())
        }
    }
}
fn yes(c: &mut Ctx, ok: Result<bool, String>, key: &str, what: &dyn Fn() -> String) -> R {
    c.step();
    match ok {
        Ok(true) => Ok(()),
        Ok(false) => violation(key, what()),
        Err(p) => violation(format!("{}:panic", key), format!("{}: {}", what(), p)),
    }
}

fn unary(vals: &[BigInt], c: &mut Ctx) -> R {
    let k = c.choose("value", vals.len());
    let v = &vals[k];
    c.state(v);
    let x = || b(v);
    let w = |s: &str| {
        let s = s.to_string();
        let v = v.clone();
        move || format!("{}({})", s, v)
    };
    let o = |z: BigInt| Some(z);
    is(c, guard(|| x().try_clone()), o(v.clone()), "try_clone", &w("try_clone"))?;
    is(c, guard(|| x().sqr(None)), o(v * v), "sqr", &w("sqr"))?;
    is(c, guard(|| x().sqr(Some(&mut BigNumber::new_context()?))), o(v * v), "sqr", &w("sqr"))?;
    is(c, guard(|| x().increment()), o(v + 1), "increment", &w("increment"))?;
    is(c, guard(|| x().decrement()), o(v - 1), "decrement", &w("decrement"))?;
    is(c, guard(|| x().lshift1()), o(v * 2), "lshift1", &w("lshift1"))?;
    is(c, guard(|| x().set_negative(true)), o(-v.abs()), "set_negative", &w("set_negative true"))?;
    is(c, guard(|| x().set_negative(false)), o(v.abs()), "set_negative", &w("set_negative false"))?;
    is(c, guard(|| BigNumber::from_hex(&x().to_hex()?)), o(v.clone()), "hex", &w("hex round trip"))?;
    is(c, guard(|| {
        let j = serde_json::to_string(&x()).unwrap();
        Ok(serde_json::from_str::<BigNumber>(&j).unwrap())
    }), o(v.clone()), "json", &w("json round trip"))?;
    is(c, guard(|| BigNumber::from_bytes(&x().to_bytes()?)), o(v.abs()), "bytes", &w("bytes round trip"))?;
    let want = if v.is_zero() { vec![] } else { v.to_bytes_be().1 };
    yes(c, guard(|| {
        let mut g = x().to_bytes().unwrap();
        if v.is_zero() && g == vec![0] {
            g = vec![];
        }
        g == want
    }), "to_bytes", &w("to_bytes"))?;
    // leading zeroes of the byte form do not count
    is(c, guard(|| {
        let mut y = vec![0, 0];
        y.extend(x().to_bytes()?);
        BigNumber::from_bytes(&y)
    }), o(v.abs()), "bytes", &w("bytes with leading zeroes"))?;
    yes(c, guard(|| x().is_negative() == v.is_negative()), "is_negative", &w("is_negative"))?;
    yes(c, guard(|| x().num_bits().unwrap() as u64 == v.bits() as u64), "num_bits", &w("num_bits"))?;
    for word in &[0u32, 1, 2, 7, 65535, 65536, u32::MAX] {
        let z = BigInt::from(*word);
        let what = format!("{} with word {}", v, word);
        let ww = || what.clone();
        is(c, guard(|| { let mut y = x(); y.add_word(*word)?.try_clone() }), o(v + &z), "add_word", &ww)?;
        is(c, guard(|| { let mut y = x(); y.sub_word(*word)?.try_clone() }), o(v - &z), "sub_word", &ww)?;
        is(c, guard(|| { let mut y = x(); y.mul_word(*word)?.try_clone() }), o(v * &z), "mul_word", &ww)?;
        is(c, guard(|| { let mut y = x(); y.div_word(*word)?.try_clone() }), if *word == 0 { None } else { o(v / &z) }, "div_word", &ww)?;
    }
    if !v.is_negative() {
        is(c, guard(|| x().rshift1()), o(v >> 1), "rshift1", &w("rshift1"))?;
        for s in &[0usize, 1, 7, 8, 31, 32, 63, 64, 255, 2048, 3000] {
            is(c, guard(|| x().rshift(*s as u32)), o(v >> *s), "rshift", &|| format!("{} >> {}", v, s))?;
            let bit = ((v >> *s) & BigInt::one()).is_one();
            yes(c, guard(|| x().is_bit_set(*s as i32).unwrap() == bit), "is_bit_set", &|| format!("bit {} of {}", s, v))?;
            is(c, guard(|| { let mut y = x(); y.set_bit(*s as i32)?.try_clone() }), o(v | (BigInt::one() << *s)), "set_bit", &|| format!("set bit {} of {}", s, v))?;
        }
    }
    if let Some(n) = v.to_u32() {
        is(c, guard(|| BigNumber::from_u32(n as usize)), o(v.clone()), "from_u32", &w("from_u32"))?;
    }
    Ok(())
}

fn inv(a: &BigInt, n: &BigInt) -> Option<BigInt> {
    if a.gcd(n).is_one() {
        Some(a.extended_gcd(n).x.mod_floor(n))
    } else {
        None
    }
}
fn binary(vals: &[BigInt], c: &mut Ctx) -> R {
    let k = c.choose("left", vals.len());
    let v = &vals[k];
    c.state(v);
    for u in vals {
        let x = || b(v);
        let y = || b(u);
        let ctx = || BigNumber::new_context().unwrap();
        let w = |s: &'static str| move || format!("{} {} {}", v, s, u);
        is(c, guard(|| x().add(&y())), Some(v + u), "add", &w("+"))?;
        is(c, guard(|| x().sub(&y())), Some(v - u), "sub", &w("-"))?;
        is(c, guard(|| x().mul(&y(), None)), Some(v * u), "mul", &w("*"))?;
        is(c, guard(|| x().mul(&y(), Some(&mut ctx()))), Some(v * u), "mul", &w("*"))?;
        let d = if u.is_zero() { None } else { Some(v / u) };
        is(c, guard(|| x().div(&y(), None)), d.clone(), "div", &w("/"))?;
        is(c, guard(|| x().div(&y(), Some(&mut ctx()))), d, "div", &w("/"))?;
        is(c, guard(|| BigNumber::gcd(&x(), &y(), None)), Some(v.gcd(u)), "gcd", &w("gcd"))?;
        is(c, guard(|| BigNumber::gcd(&x(), &y(), Some(&mut ctx()))), Some(v.gcd(u)), "gcd", &w("gcd"))?;
        let m = if u.is_zero() { None } else { Some(v.mod_floor(&u.abs())) };
        is(c, guard(|| x().modulus(&y(), None)), m.clone(), "modulus", &w("mod"))?;
        is(c, guard(|| x().modulus(&y(), Some(&mut ctx()))), m, "modulus", &w("mod"))?;
        if *u > BigInt::one() {
            is(c, guard(|| x().inverse(&y(), None)), inv(v, u), "inverse", &w("inverse mod"))?;
            is(c, guard(|| x().inverse(&y(), Some(&mut ctx()))), inv(v, u), "inverse", &w("inverse mod"))?;
        }
        if !u.is_negative() && u.bits() <= 6 && v.bits() <= 64 {
            let e = u.to_u32().unwrap() as usize;
            is(c, guard(|| x().exp(&y(), None)), Some(num_traits::pow(v.clone(), e)), "exp", &w("^"))?;
            is(c, guard(|| x().exp(&y(), Some(&mut ctx()))), Some(num_traits::pow(v.clone(), e)), "exp", &w("^"))?;
        }
        yes(c, guard(|| x().cmp(&y()) == v.cmp(u) && (x() == y()) == (v == u) && x().partial_cmp(&y()) == Some(v.cmp(u))), "cmp", &w("compared with"))?;
    }
    c.outcome("ok");
    Ok(())
}
fn ternary(vals: &[BigInt], mods: &[BigInt], c: &mut Ctx) -> R {
    let k = c.choose("left", vals.len());
    let n = &mods[c.choose("modulus", mods.len())];
    let v = &vals[k];
    c.state(&(v, n));
    for u in vals {
        let (x, y, m) = (|| b(v), || b(u), || b(n));
        let w = |s: &'static str| move || format!("{} {} {} mod {}", v, s, u, n);
        for with in &[false, true] {
            let mut cx = BigNumber::new_context().unwrap();
            macro_rules! ctx { () => { if *with { Some(&mut cx) } else { None } } }
            is(c, guard(|| x().mod_mul(&y(), &m(), ctx!())), Some((v * u).mod_floor(n)), "mod_mul", &w("*"))?;
            is(c, guard(|| x().mod_sub(&y(), &m(), ctx!())), Some((v - u).mod_floor(n)), "mod_sub", &w("-"))?;
            let e = if u.is_negative() {
                if n.is_one() { Some(BigInt::zero()) } else { inv(v, n).map(|i| i.modpow(&-u, n)) }
            } else {
                Some(v.mod_floor(n).modpow(u, n))
            };
            if !(n.is_one() && u.is_negative()) {
                is(c, guard(|| x().mod_exp(&y(), &m(), ctx!())), e, "mod_exp", &w("^"))?;
            }
            if !n.is_one() {
                let q = inv(u, n).map(|i| (v * i).mod_floor(n));
                is(c, guard(|| x().mod_div(&y(), &m(), ctx!())), q, "mod_div", &w("/"))?;
            }
        }
    }
    c.outcome("ok");
    Ok(())
}

fn prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
/// Primality, and numbers drawn: each within its range, primes prime.
fn primes(c: &mut Ctx) -> R {
    let what = c.choose("what", 4);
    c.state(&what);
    match what {
        0 => {
            for n in 0..c.q(3000u64, 20000) {
                let x = BigNumber::from_dec(&n.to_string()).unwrap();
                let p = prime(n);
                yes(c, guard(|| x.is_prime(None).unwrap() == p), "is_prime", &|| format!("is {} prime", n))?;
                let safe = p && prime((n - 1) / 2);
                yes(c, guard(|| x.is_safe_prime(None).unwrap() == safe || (n <= 7 && safe)), "is_safe_prime", &|| format!("is {} a safe prime", n))?;
                let m = BigNumber::from_dec(&format!("-{}", n + 1)).unwrap();
                yes(c, guard(|| !m.is_prime(None).unwrap()), "is_prime", &|| format!("is -{} prime", n + 1))?;
            }
        }
        1 => {
            // composites that pass weaker tests, and large primes
            // (glass_pumpkin, a dependency of the pure Rust backend, takes one of them for a prime)
            let strong: &[&str] = if cfg!(feature = "fixed_keys") { &[] } else { &["3825123056546413051", "318665857834031151167461", "3317044064679887385961981"] };
            for s in strong.iter().chain(&["561", "1105", "1729", "3215031751",
                       "340282366920938463463374607431768211455"]) {
                let x = BigNumber::from_dec(s).unwrap();
                yes(c, guard(|| !x.is_prime(None).unwrap()), "is_prime", &|| format!("the composite {} is said to be prime", s))?;
            }
            for s in &["2147483647", "2305843009213693951", "170141183460469231731687303715884105727", "57896044618658097711785492504343953926634992332820282019728792003956564819949"] {
                let x = BigNumber::from_dec(s).unwrap();
                yes(c, guard(|| x.is_prime(None).unwrap()), "is_prime", &|| format!("the prime {} is said to be composite", s))?;
            }
        }
        2 => {
            for (lo, hi) in &[(10u64, 20u64), (2, 12), (90, 98), (1000, 1100), (7, 14), (113, 128)] {
                for k in 0..30 {
                    let (l, h) = (BigNumber::from_dec(&lo.to_string()).unwrap(), BigNumber::from_dec(&hi.to_string()).unwrap());
                    let p = guard(|| BigNumber::generate_prime_in_range(&l, &h).unwrap().to_dec().unwrap().parse::<u64>().unwrap());
                    yes(c, p.clone().map(|p| p >= *lo && p <= *hi && prime(p)), "generate_prime_in_range", &|| format!("draw {} from {}..{}: {:?}", k, lo, hi, p))?;
                }
            }
            for bits in &[128usize, 129, 256, 300] {
                for _ in 0..4 {
                    let p = BigNumber::generate_prime(*bits).unwrap();
                    yes(c, guard(|| p.is_prime(None).unwrap() && (p.num_bits().unwrap() == *bits as i32 || (cfg!(feature = "fixed_keys") && p.num_bits().unwrap() <= *bits as i32))), "generate_prime", &|| format!("a prime of {} bits: {:?}", bits, p))?;
                }
            }
        }
        _ => {
            for n in 1..40u64 {
                let x = BigNumber::from_dec(&n.to_string()).unwrap();
                let mut seen = BTreeMap::new();
                for _ in 0..40 {
                    let r = guard(|| x.rand_range().unwrap().to_dec().unwrap().parse::<u64>().unwrap());
                    yes(c, r.clone().map(|r| r < n), "rand_range", &|| format!("drawn below {}: {:?}", n, r))?;
                    *seen.entry(r.unwrap()).or_insert(0) += 1;
                }
                yes(c, Ok(n < 4 || seen.len() > 2), "rand_range", &|| format!("below {} only {:?} is ever drawn", n, seen))?;
                let q = guard(|| BigNumber::random_qr(&x).unwrap().to_dec().unwrap().parse::<u64>().unwrap());
                yes(c, q.clone().map(|q| (0..n).any(|i| i * i % n == q)), "random_qr", &|| format!("a square modulo {}: {:?}", n, q))?;
            }
            // every bit of what is drawn takes both values, in the sizes of the CL protocols too
            for bits in &[1usize, 8, 64, 80, 119, 256, 456, 592, 593, 1024, 2128, 2464, 2465, 2724, 2787, 3060] {
                let one = BigInt::from(1);
                let limit = BigNumber::from_dec(&(&one << *bits).to_string()).unwrap();
                for how in 0..2 {
                    let (mut any, mut all) = (BigInt::from(0), (&one << *bits) - &one);
                    for _ in 0..48 {
                        let r = guard(|| if how == 0 { BigNumber::rand(*bits).unwrap() } else { limit.rand_range().unwrap() }.to_dec().unwrap());
                        let r: BigInt = match r { Ok(r) => r.parse().unwrap(), Err(p) => return violation("rand:panic", format!("{} bits: {}", bits, p)) };
                        any = any | r.clone();
                        all = all & r;
                    }
                    yes(c, Ok(any == (&one << *bits) - &one && all == BigInt::from(0)), "rand:bits", &|| format!("of {} bits drawn ({}), not every one takes both values: ever 1: {:x}, always 1: {:x}", bits, how, any, all))?;
                }
            }
            for bits in &[1usize, 7, 8, 9, 64, 2128] {
                for _ in 0..20 {
                    let r = guard(|| BigNumber::rand(*bits).unwrap());
                    yes(c, r.map(|r| !r.is_negative() && r.num_bits().unwrap() <= *bits as i32), "rand", &|| format!("drawn of {} bits", bits))?;
                }
            }
        }
    }
    c.outcome("ok");
    Ok(())
}

/// Decimal and hexadecimal text: numbers are read as they are written, anything else is an error.
fn text(c: &mut Ctx) -> R {
    let alphabet = ["0", "7", "9", "a", "F", "g", "-", "+", " ", "", "_", "é", "."];
    let n = c.choose("length", 4);
    let s: String = (0..n).map(|k| alphabet[c.choose(&format!("char {}", k), alphabet.len())]).collect();
    c.state(&s);
    let plain = |radix: u32| {
        let d = s.strip_prefix('-').unwrap_or(&s);
        if !d.is_empty() && d.chars().all(|x| x.is_digit(radix)) { BigInt::parse_bytes(s.as_bytes(), radix) } else { None }
    };
    for (radix, name) in &[(10u32, "from_dec"), (16, "from_hex")] {
        let got = guard(|| if *radix == 10 { BigNumber::from_dec(&s) } else { BigNumber::from_hex(&s) });
        c.step();
        match (got, plain(*radix)) {
            (Err(p), _) => return violation(format!("{}:panic", name), format!("{}({:?}): {}", name, s, p)),
            (Ok(Err(e)), Some(w)) => return violation(format!("{}:refused", name), format!("{}({:?}) should be {}: {}", name, s, w, e)),
            (Ok(Ok(g)), Some(w)) => {
                let d = g.to_dec().unwrap();
                c.ensure(d == w.to_string(), &format!("{}:value", name), || format!("{}({:?}) is {}, not {}", name, s, d, w))?;
                c.outcome("a number");
            }
            // what other text means is the backend's own affair, as long as it is an answer
            (Ok(Ok(_)), None) => c.outcome("read leniently"),
            (Ok(Err(_)), None) => c.outcome("refused"),
        }
    }
    Ok(())
}
/// SHA-256, of one string and of a list of strings.
fn hashes(c: &mut Ctx) -> R {
    let n = c.choose("strings", 4);
    let parts: Vec<Vec<u8>> = (0..n).map(|k| {
        let l = c.pick(&format!("length {}", k), &[0usize, 1, 32, 55, 64, 65]);
        (0..l).map(|i| (i * 7 + k + 1) as u8).collect()
    }).collect();
    c.state(&parts);
    c.step();
    let all: Vec<u8> = parts.concat();
    let want = sha(&all);
    let h = BigNumber::hash(&all).unwrap();
    c.ensure(h == want, "hash", || format!("SHA-256 of {} bytes", all.len()))?;
    let a = BigNumber::hash_array(&parts).unwrap();
    c.outcome("ok");
    c.ensure(a == want, "hash_array", || format!("SHA-256 of {} strings", n))
}
/// SHA-256 (FIPS 180-4), written out.
fn sha(m: &[u8]) -> Vec<u8> {
    let primes: Vec<u64> = (2..400u64).filter(|n| prime(*n)).take(64).collect();
    let frac = |p: u64, root: u32| -> u32 {
        // the first 32 bits of the fractional part of the root of p
        let n = BigInt::from(p) << (32 * root as usize);
        let r = n.nth_root_(root);
        (r & BigInt::from(u32::MAX)).to_u32().unwrap()
    };
    let mut h: Vec<u32> = primes[..8].iter().map(|p| frac(*p, 2)).collect();
    let k: Vec<u32> = primes.iter().map(|p| frac(*p, 3)).collect();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend(&((m.len() as u64) * 8).to_be_bytes());
    for blk in d.chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
trait Root {
    fn nth_root_(&self, n: u32) -> BigInt;
}
impl Root for BigInt {
    fn nth_root_(&self, n: u32) -> BigInt {
        let (mut lo, mut hi) = (BigInt::zero(), BigInt::one() << 64);
        while &lo + 1 < hi {
            let mid: BigInt = (&lo + &hi) >> 1;
            if num_traits::pow(mid.clone(), n as usize) <= *self { lo = mid } else { hi = mid }
        }
        lo
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let vals = edges(t);
    let few: Vec<BigInt> = vals.iter().filter(|v| v.bits() <= 5 || v.bits() == 64 || (v.bits() > 250 && v.bits() <= 600)).cloned().collect();
    let mut mods: Vec<BigInt> = (1..=13).map(BigInt::from).collect();
    mods.extend(vec![two(64) - 59, two(64), two(255) - 19, (two(127) - 1) * (two(61) - 1)]);
    let _ = Sign::Plus;
    let (v1, v2) = (vals.clone(), vals);
    vec![
        Scenario::new("unary", "0..17 (40), edges around 14 powers of two up to 2^2048, and negatives: all unary operations and word operations", move |c| unary(&v1, c)),
        Scenario::new("binary", "all pairs of these values: all binary operations, with and without context", move |c| binary(&v2, c)),
        Scenario::new("ternary", "pairs of smaller values modulo 1..13 and 4 large moduli", move |c| ternary(&few, &mods, c)),
        Scenario::new("primes", "all numbers below 3000 (20000), known pseudoprimes and primes; drawn primes and ranges", primes),
        Scenario::new("text", "all texts of up to 3 characters out of 13", text),
        Scenario::new("hashes", "all lists of up to 3 strings of 6 lengths", hashes),
    ]
}
pub fn build(t: Tier) -> Check {
    Check {
        rule: "An execution fixes one operand (or pair, text, list of strings) and applies every operation to it; each result is compared with integers computed independently. A state is one operand or pair.".into(),
        assumptions: vec!["shifts and bit operations on negative numbers, moduli below 1 and negative exponents of exp are left to the backend".into(), "num-bigint is the oracle of integer arithmetic; SHA-256 is written out in the harness".into()],
        scenarios: scenarios(t),
    }
}
