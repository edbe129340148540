//! N03: the pairing adapter: a prime field, two groups and a bilinear map.
use crate::world::{jval, unj, U};
use mc::*;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::Arc;
use ursa::pair::{GroupOrderElement as E, Pair, PointG1, PointG2};

fn order() -> BigInt {
    BigInt::parse_bytes(b"2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16).unwrap()
}
fn el(v: &BigInt) -> E {
    let b = if v.is_zero() { vec![0] } else { v.to_bytes_be().1 };
    E::from_bytes(&b).unwrap()
}
fn num(e: &E) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, &e.to_bytes().unwrap())
}
fn values(t: Tier) -> Vec<BigInt> {
    let r = order();
    let mut v: Vec<BigInt> = (0..t_pick(t, 6, 20)).map(BigInt::from).collect();
    for p in &[8usize, 31, 56, 57, 63, 64, 112, 127, 128, 192, 252] {
        v.push((BigInt::one() << *p) - 1);
        v.push(BigInt::one() << *p);
    }
    v.push((&r - 1) / 2);
    v.push((&r + 1) / 2);
    for k in 1..=t_pick(t, 3, 10) {
        v.push(&r - k);
    }
    v.push(BigInt::parse_bytes(b"1234567890123456789012345678901234567890123456789012345678901234567890123", 10).unwrap());
    // not reduced: what a hash may give
    v.push(r.clone());
    v.push(&r + 1);
    v.push(&r * 2 - 1);
    v.push(&r * 2 + 5);
    v.push((BigInt::one() << 255) + 12345);
    v.push((BigInt::one() << 256) - 1);
    v
}
fn t_pick(t: Tier, q: i32, h: i32) -> i32 {
    if t == Tier::Quick { q } else { h }
}
fn is(c: &mut Ctx, got: Result<U<E>, String>, want: &BigInt, reduced: bool, key: &str, what: &dyn Fn() -> String) -> R {
    c.step();
    let r = order();
    match got {
        Err(p) => violation(format!("{}:panic", key), format!("{}: {}", what(), p)),
        Ok(Err(e)) => violation(format!("{}:error", key), format!("{}: {}", what(), e)),
        Ok(Ok(g)) => {
            let n = num(&g);
            if n.mod_floor(&r) != want.mod_floor(&r) {
                return violation(format!("{}:value", key), format!("{} is {}, not {}", what(), want.mod_floor(&r), n));
            }
            // reduced operands have reduced results, and equal elements compare equal
            if reduced && (n >= r || g != el(&want.mod_floor(&r))) {
                return violation(format!("{}:form", key), format!("{} is {}, which is not a reduced form equal to {}", what(), n, want.mod_floor(&r)));
            }
            Ok(())
        }
    }
}
/// The scalar field.
fn scalars(vals: &[BigInt], c: &mut Ctx) -> R {
    let k = c.choose("left", vals.len());
    let v = &vals[k];
    let r = order();
    c.state(v);
    let x = el(v);
    let small = |a: &BigInt| *a < r;
    is(c, guard(|| E::from_string(&x.to_string()?)), v, small(v), "string", &|| format!("string form of {}", v))?;
    is(c, guard(|| E::from_bytes(&x.to_bytes()?)), v, small(v), "bytes", &|| format!("byte form of {}", v))?;
    is(c, guard(|| Ok(unj::<E>(&jval(&x)).unwrap())), v, small(v), "json", &|| format!("json form of {}", v))?;
    is(c, guard(|| x.mod_neg()), &-v, small(v), "mod_neg", &|| format!("-({})", v))?;
    if !v.mod_floor(&r).is_zero() {
        let i = v.extended_gcd(&r).x.mod_floor(&r);
        is(c, guard(|| x.inverse()), &i, small(v), "inverse", &|| format!("1/{}", v))?;
    }
    for u in vals {
        let y = el(u);
        let red = small(v) && small(u);
        is(c, guard(|| x.add_mod(&y)), &(v + u), red, "add_mod", &|| format!("{} + {}", v, u))?;
        is(c, guard(|| x.mul_mod(&y)), &(v * u), red, "mul_mod", &|| format!("{} * {}", v, u))?;
        is(c, guard(|| x.sub_mod(&y)), &(v - u), red, "sub_mod", &|| format!("{} - {}", v, u))?;
        if red && k % 2 == 0 {
            is(c, guard(|| x.pow_mod(&y)), &v.modpow(u, &r), red, "pow_mod", &|| format!("{} ^ {}", v, u))?;
        }
        c.ensure((x == y) == (v == u), "eq", || format!("{} == {}", v, u))?;
    }
    c.outcome("ok");
    Ok(())
}

trait Group: Sized + Clone + PartialEq + std::fmt::Debug {
    const NAME: &'static str;
    fn rnd() -> U<Self>;
    fn zero() -> U<Self>;
    fn add_(&self, o: &Self) -> U<Self>;
    fn sub_(&self, o: &Self) -> U<Self>;
    fn neg_(&self) -> U<Self>;
    fn mul_(&self, e: &E) -> U<Self>;
    fn via_string(&self) -> U<Self>;
    fn via_bytes(&self) -> U<Self>;
    fn via_json(&self) -> Self;
    fn size(&self) -> (usize, usize);
}
macro_rules! group {
    ($t:ident) => {
        impl Group for $t {
            const NAME: &'static str = stringify!($t);
            fn rnd() -> U<Self> { $t::new() }
            fn zero() -> U<Self> { $t::new_inf() }
            fn add_(&self, o: &Self) -> U<Self> { self.add(o) }
            fn sub_(&self, o: &Self) -> U<Self> { self.sub(o) }
            fn neg_(&self) -> U<Self> { self.neg() }
            fn mul_(&self, e: &E) -> U<Self> { self.mul(e) }
            fn via_string(&self) -> U<Self> { $t::from_string(&self.to_string()?) }
            fn via_bytes(&self) -> U<Self> { $t::from_bytes(&self.to_bytes()?) }
            fn via_json(&self) -> Self { unj(&jval(self)).unwrap() }
            fn size(&self) -> (usize, usize) { (self.to_bytes().unwrap().len(), $t::BYTES_REPR_SIZE) }
        }
    };
}
group!(PointG1);
group!(PointG2);
fn same<G: Group>(c: &mut Ctx, a: Result<U<G>, String>, b: Result<U<G>, String>, key: &str, what: &dyn Fn() -> String) -> R {
    c.step();
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) if a == b && b == a => Ok(()),
        (Ok(Ok(a)), Ok(Ok(b))) => violation(format!("{}:{}", G::NAME, key), format!("{}: {:?} and {:?} differ", what(), a, b)),
        (a, b) => violation(format!("{}:{}:failed", G::NAME, key), format!("{}: {:?} / {:?}", what(), a, b)),
    }
}
/// Points are addressed as multiples k*G of one generator: group operations follow the scalars.
fn groups<G: Group>(vals: &[BigInt], c: &mut Ctx) -> R {
    let r = order();
    let k = c.choose("left", vals.len());
    let v = &vals[k];
    c.state(v);
    rng::seed(4711);
    let g = G::rnd().unwrap();
    let p = |a: &BigInt| guard(|| g.mul_(&el(&a.mod_floor(&r))));
    let q = |a: &BigInt| g.mul_(&el(&a.mod_floor(&r))).unwrap();
    let x = q(v);
    let z = G::zero().unwrap();
    same(c, guard(|| g.mul_(&el(v))), p(v), "mul-unreduced", &|| format!("times {} reduced or not", v))?;
    same(c, guard(|| x.neg_()), p(&-v), "neg", &|| format!("-({} G)", v))?;
    same(c, guard(|| x.add_(&z)), p(v), "zero", &|| format!("{} G + 0", v))?;
    same(c, guard(|| z.add_(&x)), p(v), "zero", &|| format!("0 + {} G", v))?;
    same(c, guard(|| x.sub_(&x)), guard(|| G::zero()), "zero", &|| format!("{} G - itself", v))?;
    same(c, guard(|| z.sub_(&x)), p(&-v), "zero", &|| format!("0 - {} G", v))?;
    same(c, guard(|| x.via_string()), p(v), "string", &|| format!("string form of {} G", v))?;
    same(c, guard(|| Ok(x.via_json())), p(v), "json", &|| format!("json form of {} G", v))?;
    same(c, guard(|| x.via_bytes()), p(v), "bytes", &|| format!("byte form of {} G", v))?;
    c.ensure(x.size().0 == x.size().1, "bytes:size", || format!("byte form of {} G: {:?}", v, x.size()))?;
    c.ensure((x == z) == v.mod_floor(&r).is_zero(), "eq:zero", || format!("{} G == 0", v))?;
    for u in vals {
        let y = q(u);
        same(c, guard(|| x.add_(&y)), p(&(v + u)), "add", &|| format!("{} G + {} G", v, u))?;
        same(c, guard(|| x.sub_(&y)), p(&(v - u)), "sub", &|| format!("{} G - {} G", v, u))?;
        same(c, guard(|| x.mul_(&el(&u.mod_floor(&r)))), p(&(v * u)), "mul", &|| format!("{} * {} G", u, v))?;
        let e = v.mod_floor(&r) == u.mod_floor(&r);
        c.ensure((x == y) == e, &format!("{}:eq", G::NAME), || format!("{} G == {} G", v, u))?;
    }
    c.outcome(G::NAME);
    Ok(())
}
/// e(aP, bQ) = e(P, Q)^(ab), and the target group's operations follow the scalars.
fn pairing(vals: &[BigInt], c: &mut Ctx) -> R {
    let r = order();
    let k = c.choose("left", vals.len());
    let v = &vals[k];
    c.state(v);
    rng::seed(4712);
    let (g, h) = (PointG1::new().unwrap(), PointG2::new().unwrap());
    let (g2, h2) = (PointG1::new().unwrap(), PointG2::new().unwrap());
    let one = Pair::pair(&g, &h).unwrap();
    let one2 = Pair::pair(&g2, &h2).unwrap();
    let gt = |a: &BigInt| one.pow(&el(&a.mod_floor(&r))).unwrap();
    c.ensure(!one.is_unity().unwrap(), "pair:degenerate", || "e(P, Q) is one".into())?;
    let x = el(v);
    let pv = gt(v);
    let check = |c: &mut Ctx, got: Result<U<Pair>, String>, want: &Pair, key: &str, what: &dyn Fn() -> String| -> R {
        c.step();
        match got {
            Ok(Ok(g)) if g == *want => Ok(()),
            x => violation(format!("pair:{}", key), format!("{}: {}", what(), short(&format!("{:?}", x)))),
        }
    };
    check(c, guard(|| one.pow(&x)), &pv, "pow-unreduced", &|| format!("to the power of {} reduced or not", v))?;
    check(c, guard(|| pv.inverse()), &gt(&-v), "inverse", &|| format!("inverse of e^{}", v))?;
    check(c, guard(|| Pair::from_string(&pv.to_string()?)), &pv, "string", &|| format!("string form of e^{}", v))?;
    check(c, guard(|| Ok(unj(&jval(&pv)).unwrap())), &pv, "json", &|| format!("json form of e^{}", v))?;
    c.ensure(pv.is_unity().unwrap() == v.mod_floor(&r).is_zero(), "pair:unity", || format!("e^{} is one", v))?;
    c.ensure(pv.to_bytes().unwrap().len() == Pair::BYTES_REPR_SIZE, "pair:bytes", || "size".into())?;
    for u in vals.iter().step_by(c.q(3, 1)) {
        let y = el(u);
        check(c, guard(|| Pair::pair(&g.mul(&x)?, &h.mul(&y)?)), &gt(&(v * u)), "bilinear", &|| format!("e({} P, {} Q)", v, u))?;
        check(c, guard(|| pv.mul(&gt(u))), &gt(&(v + u)), "mul", &|| format!("e^{} * e^{}", v, u))?;
        check(c, guard(|| pv.pow(&y)), &gt(&(v * u)), "pow", &|| format!("(e^{})^{}", v, u))?;
        let want = pv.mul(&one2.pow(&y).unwrap()).unwrap();
        check(c, guard(|| Pair::pair2(&g.mul(&x)?, &h, &g2.mul(&y)?, &h2)), &want, "pair2", &|| format!("e({} P, Q) e({} P', Q')", v, u))?;
        let same = gt(u).to_bytes().unwrap() == pv.to_bytes().unwrap();
        c.ensure(same == ((v - u).mod_floor(&r).is_zero()), "pair:bytes", || format!("byte forms of e^{} and e^{}", v, u))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Byte strings of any length, and hashing to the group: a value or an error, the same each time.
fn bytes(c: &mut Ctx) -> R {
    let l = c.choose("length", 140);
    let fill = c.pick("fill", &[0u8, 1, 0x7f, 0xff]);
    c.state(&(l, fill));
    let b = vec![fill; l];
    c.step();
    let e = match guard(|| E::from_bytes(&b)) {
        Err(p) => return violation("bytes:panic", format!("{} bytes: {}", l, p)),
        Ok(e) => e,
    };
    c.ensure(e.is_ok() == (l <= E::BYTES_REPR_SIZE), "bytes:length", || format!("{} bytes as a scalar: {:?}", l, e))?;
    if let Ok(e) = &e {
        c.ensure(num(e) == BigInt::from_bytes_be(Sign::Plus, &b), "bytes:value", || format!("{} bytes of {}", l, fill))?;
    }
    let s = guard(|| E::new_from_seed(&b));
    match s {
        Err(p) => return violation("seed:panic", format!("{} bytes: {}", l, p)),
        Ok(Ok(s)) => {
            c.ensure(l == E::BYTES_REPR_SIZE, "seed:length", || format!("a seed of {} bytes is taken", l))?;
            c.ensure(num(&s) < order() && s == E::new_from_seed(&b).unwrap(), "seed:value", || "not deterministic or not reduced".into())?;
        }
        Ok(Err(_)) => c.ensure(l != E::BYTES_REPR_SIZE, "seed:length", || format!("a seed of {} bytes is refused", l))?,
    }
    if l <= E::BYTES_REPR_SIZE {
        let h = match guard(|| PointG1::from_hash(&b)) {
            Ok(Ok(h)) => h,
            x => return violation("from_hash", format!("{} bytes of {}: {:?}", l, fill, x)),
        };
        c.ensure(h == PointG1::from_hash(&b).unwrap() && !h.is_inf().unwrap(), "from_hash", || "not a point, or not the same".into())?;
        // of the group's order
        let top = h.mul(&el(&(order() - 1))).unwrap().add(&h).unwrap();
        c.ensure(top.is_inf().unwrap(), "from_hash:order", || format!("{} bytes of {}", l, fill))?;
    }
    for (n, r) in vec![("PointG1", guard(|| PointG1::from_bytes(&b).is_ok())), ("PointG2", guard(|| PointG2::from_bytes(&b).is_ok()))] {
        match r {
            Err(p) => return violation(format!("{}:bytes:panic", n), format!("{} bytes of {}: {}", l, fill, p)),
            Ok(ok) => c.ensure(!ok || l == PointG1::BYTES_REPR_SIZE, &format!("{}:bytes:length", n), || format!("{} bytes are taken for a point", l))?,
        }
    }
    c.outcome(if e.is_ok() { "scalar" } else { "refused" });
    Ok(())
}

pub fn build(t: Tier) -> Check {
    let v = Arc::new(values(t));
    let (v1, v2, v3, v4) = (v.clone(), v.clone(), v.clone(), v);
    Check {
        rule: "An execution fixes one scalar and combines it with every other in every operation of the scalar field, of G1, of G2 or of the pairing; the results are compared with those computed on integers modulo the group's order. A state is one scalar.".into(),
        assumptions: vec!["points are multiples of one random generator of each group; num-bigint is the oracle of integer arithmetic".into()],
        scenarios: vec![
            Scenario::new("scalars", "40 (60) scalars incl. unreduced ones, all pairs", move |c| scalars(&v1, c)),
            Scenario::new("g1", "all pairs of scalars times a generator of G1", move |c| groups::<PointG1>(&v2, c)),
            Scenario::new("g2", "all pairs of scalars times a generator of G2", move |c| groups::<PointG2>(&v3, c)),
            Scenario::new("pairing", "all scalars x a third (all) of them", move |c| pairing(&v4, c)),
            Scenario::new("bytes", "byte strings of 0..139 bytes x 4 fillings", bytes),
        ],
    }
}
