//! H04: Shamir's scheme in libursa, against Lagrange interpolation over small fields.
use mc::*;
use ursa::bn::BigNumber;
use ursa::sharing::shamir::{combine_shares, split_secret, Share};

fn big(n: u64) -> BigNumber { BigNumber::from_dec(&n.to_string()).unwrap() }
fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| (a << 8) | *x as u64) }
fn val(b: &BigNumber) -> u64 { num(&b.to_bytes().unwrap()) }
fn pow(b: u64, mut e: u64, p: u64) -> u64 {
    let (mut r, mut b) = (1u128, b as u128 % p as u128);
    while e > 0 { if e & 1 == 1 { r = r * b % p as u128 } b = b * b % p as u128; e >>= 1 }
    r as u64
}
fn at(co: &[u64], x: u64, p: u64) -> u64 { co.iter().rev().fold(0u128, |a, c| (a * x as u128 + *c as u128) % p as u128) as u64 }
fn lagrange(pts: &[(u64, u64)], x: u64, p: u64) -> u64 {
    let p2 = p as u128;
    let mut r = 0u128;
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let (mut n, mut d) = (*yi as u128 % p2, 1u128);
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                n = n * ((x as u128 + p2 - *xj as u128 % p2) % p2) % p2;
                d = d * ((*xi as u128 + p2 - *xj as u128 % p2) % p2) % p2;
            }
        }
        r = (r + n * pow(d as u64, p - 2, p) as u128) % p2;
    }
    r as u64
}
fn min_bytes(n: u64) -> Vec<u8> { let v = n.to_be_bytes().to_vec(); v.into_iter().skip_while(|b| *b == 0).collect() }
/// Every polynomial over a small field, every choice and order of shares.
fn combine(c: &mut Ctx) -> R {
    let p = c.pick("field", &[5u64, 7, 11]);
    let t = 2 + c.choose("threshold", 2);
    let n = (p - 1).min(c.q(4, 5)) as usize;
    let mut co = vec![];
    for x in 0..t { co.push(c.choose(["secret", "linear", "quadratic"][x], p as usize) as u64) }
    c.state(&(p, t, &co));
    let ids: Vec<u64> = (1..=n as u64).collect();
    for sel in subsets(n) {
        if sel.len() < 2 { continue }
        for order in if sel.len() <= 3 { perms(sel.len()).into_iter().map(|o| o.iter().map(|x| sel[*x]).collect::<Vec<_>>()).collect() } else { vec![sel.clone(), sel.iter().rev().cloned().collect()] } {
            let pts: Vec<(u64, u64)> = order.iter().map(|i| (ids[*i], at(&co, ids[*i], p))).collect();
            // shares of value zero are refused by design
            if pts.iter().any(|x| x.1 == 0) { continue }
            let shares: Vec<Share> = pts.iter().map(|x| Share { identifier: x.0 as u8, value: big(x.1) }).collect();
            c.step();
            let want = lagrange(&pts, 0, p);
            match guard(|| combine_shares(&shares, &big(p)).map_err(|e| e.to_string())) {
                Ok(Ok(b)) => {
                    c.ensure(num(&b) == want && b == min_bytes(want), "combine", || format!("field {} points {:?}: {} instead of {}", p, pts, num(&b), want))?;
                    if pts.len() >= t { c.ensure(num(&b) == co[0], "combine", || "not the secret".into())?; }
                }
                o => return violation("combine", format!("field {} points {:?}: {:?}", p, pts, o)),
            }
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Sets of shares no combination may accept.
fn refuse(c: &mut Ctx) -> R {
    let p = c.pick("field", &[5u64, 7, 257, 0, 1]);
    let n = c.choose("shares", 4);
    let mut v = vec![];
    for x in 0..n { v.push((c.pick(["first id", "second id", "third id"][x], &[0u64, 1, 2, 3, 6, 8]), c.choose(["first value", "second value", "third value"][x], 2) as u64 * 2)) }
    c.state(&(p, &v));
    let shares: Vec<Share> = v.iter().map(|x| Share { identifier: x.0 as u8, value: big(x.1) }).collect();
    let bad = p < 2 || v.len() < 2 || v.iter().any(|x| x.0 % p == 0 || x.1 == 0) || (0..v.len()).any(|i| (0..i).any(|j| v[i].0 % p == v[j].0 % p));
    c.step();
    match guard(|| combine_shares(&shares, &big(p)).map_err(|e| e.to_string())) {
        Err(m) => violation("refuse:panic", format!("field {} shares {:?}: {}", p, v, m)),
        Ok(Ok(b)) => c.ensure(!bad && num(&b) == lagrange(&v, 0, p), "refuse", || format!("field {} shares {:?} give {}", p, v, num(&b))),
        Ok(Err(e)) => c.ensure(bad, "refuse", || format!("field {} shares {:?}: {}", p, v, e)),
    }?;
    c.outcome(if bad { "refused" } else { "combined" });
    Ok(())
}
/// What a split gives: the right number of points of one polynomial of the right degree through the secret.
fn split(c: &mut Ctx) -> R {
    let p = c.pick("field", &[2u64, 3, 5, 7, 11, 257, 65537, 4294967291]);
    let t = c.choose("threshold", 7);
    let n = c.pick("total", &[0usize, 1, 2, 3, 4, 5, 6, 7, 10, 11, 255]);
    let sc = c.choose("secret", 8);
    c.state(&(p, t, n, sc));
    let secret: u64 = [0, 1, 2, p - 1, p, p + 1, p / 2, 256 % p][sc];
    let bytes: Vec<u8> = if secret == 0 { vec![0] } else { min_bytes(secret) };
    let r = guard(|| split_secret(&bytes, t as u8, n as u8, &big(p)).map_err(|e| e.to_string()));
    c.step();
    let valid = t >= 2 && n >= t && secret < p && (n as u64) < p;
    let shares = match r {
        Err(m) => return violation("split:panic", format!("field {} {} of {} secret {}: {}", p, t, n, secret, m)),
        Ok(Err(e)) => {
            c.ensure(!valid, "split", || format!("field {} {} of {} secret {}: {}", p, t, n, secret, e))?;
            c.outcome("refused");
            return Ok(());
        }
        Ok(Ok(s)) => s,
    };
    c.ensure(valid, if (n as u64) >= p && t >= 2 && n >= t && secret < p { "split:identifiers" } else { "split" }, || format!("field {} {} of {} secret {} is split", p, t, n, secret))?;
    c.ensure(shares.len() == n && shares.iter().enumerate().all(|(i, s)| s.identifier as usize == i + 1 && val(&s.value) < p), "split", || "shares misnumbered".into())?;
    let pts: Vec<(u64, u64)> = shares.iter().map(|s| (s.identifier as u64, val(&s.value))).collect();
    c.ensure(lagrange(&pts[..t], 0, p) == secret, "split", || format!("the first {} shares do not give the secret: {:?}", t, pts))?;
    for x in &pts[t..] {
        c.step();
        c.ensure(lagrange(&pts[..t], x.0, p) == x.1, "split:degree", || format!("share {} is not on the polynomial of the first {}: {:?}", x.0, t, pts))?;
    }
    // bytes of a share and back
    for s in &shares {
        let b = s.to_bytes();
        let back = guard(|| Share::from_bytes(&b, &big(p)).map(|x| (x.identifier, val(&x.value))).ok());
        c.step();
        c.ensure(back == Ok(Some((s.identifier, val(&s.value)))), "bytes", || format!("{:?} -> {} -> {:?}", s, hexs(&b), back))?;
    }
    // every choice of threshold-many out of the first seven shares
    if n > 1 {
        for sel in combos(n.min(7), t) {
            let some: Vec<Share> = sel.iter().map(|i| shares[*i].clone()).collect();
            if some.iter().any(|s| val(&s.value) == 0) { continue }
            c.step();
            let r = guard(|| combine_shares(&some, &big(p)).map_err(|e| e.to_string()));
            c.ensure(r.as_ref().ok().and_then(|x| x.as_ref().ok()).map(|b| num(b)) == Some(secret), "split:combine", || format!("shares {:?}: {:?}", sel, r))?;
        }
    }
    c.outcome("split");
    Ok(())
}
/// A large field: secrets of every length up to it; fewer shares give something else; splits differ.
fn large(c: &mut Ctx) -> R {
    let t = 2 + c.choose("threshold", 4);
    let l = 1 + c.choose("length", 33);
    let lead = c.choose("leading zeros", 3);
    c.state(&(t, l, lead));
    if lead >= l { return Ok(()) }
    let p = BigNumber::from_hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141").unwrap();
    let mut secret: Vec<u8> = (0..l).map(|i| (i * 37 + 11) as u8 | 1).collect();
    for x in 0..lead { secret[x] = 0 }
    let fits = l <= 32 || lead > 0;
    let r = guard(|| split_secret(&secret, t as u8, t as u8 + 2, &p).map_err(|e| e.to_string()));
    c.step();
    let shares = match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => { c.ensure(!fits, "large", || format!("secret of {} bytes: {}", l, e))?; c.outcome("too large"); return Ok(()) }
        Err(m) => return violation("large:panic", m),
    };
    c.ensure(fits, "large", || format!("secret of {} bytes is split", l))?;
    let again = split_secret(&secret, t as u8, t as u8 + 2, &p).unwrap();
    for i in 0..shares.len() { c.ensure(shares[i].value != again[i].value, "large:random", || "two splits share a share".into())?; }
    for sel in subsets(t + 2) {
        if sel.len() < 2 { continue }
        let some: Vec<Share> = sel.iter().map(|i| shares[*i].clone()).collect();
        let got = combine_shares(&some, &p).map_err(|e| Violation { key: "large".into(), msg: e.to_string() })?;
        c.step();
        let stripped: Vec<u8> = secret.iter().cloned().skip_while(|b| *b == 0).collect();
        if sel.len() < t {
            c.ensure(got != secret && got != stripped, "large:few", || format!("{} shares of {} give the secret", sel.len(), t))?;
        } else if got != secret {
            c.ensure(got == stripped, "large", || format!("{} instead of {}", hexs(&got), hexs(&secret)))?;
            c.soft("large:leading-zeros", format!("secret {} comes back as {}", hexs(&secret), hexs(&got)));
        }
        // through bytes
        let via: Vec<Share> = some.iter().map(|s| Share::from_bytes(s.to_bytes(), &p).unwrap()).collect();
        c.ensure(combine_shares(&via, &p).unwrap() == got, "bytes", || "shares from bytes give something else".into())?;
    }
    for l in 0..2 {
        let r = guard(|| Share::from_bytes(&vec![7u8; l], &p).is_ok());
        c.ensure(r.is_ok() && (l > 0 || r == Ok(false)), "bytes:panic", || format!("a share of {} bytes: {:?}", l, r))?;
    }
    let r = guard(|| split_secret(&[], t as u8, t as u8, &p).is_ok());
    c.ensure(r == Ok(false), "large", || format!("the empty secret: {:?}", r))?;
    c.outcome("ok");
    Ok(())
}
/// The coefficients of the polynomial through the points.
fn coefs(pts: &[(u64, u64)], p: u64) -> Vec<u64> {
    let q = p as u128;
    let mut out = vec![0u128; pts.len()];
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let (mut b, mut d) = (vec![1u128], 1u128);
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i == j { continue }
            let mut nb = vec![0u128; b.len() + 1];
            for (k, v) in b.iter().enumerate() { nb[k + 1] = (nb[k + 1] + v) % q; nb[k] = (nb[k] + v * (q - *xj as u128)) % q }
            b = nb;
            d = d * ((*xi as u128 + q - *xj as u128) % q) % q;
        }
        let f = *yi as u128 * pow(d as u64, p - 2, p) as u128 % q;
        for (k, v) in b.iter().enumerate() { out[k] = (out[k] + v * f) % q }
    }
    out.into_iter().map(|x| x as u64).collect()
}
/// Large thresholds: the coefficients above the secret are drawn afresh, one by one and split by
/// split; shares of any place combine, one too few do not.
fn wide(c: &mut Ctx) -> R {
    const P: u64 = (1 << 61) - 1;
    let t = c.pick("threshold", &[2usize, 3, 4, 5, 6, 7, 8, 12, 20]);
    let n = c.pick("total", &[t, t + 1, 40, 128, 254, 255]);
    let secret = c.pick("secret", &[1u64, 255, 256, 1 << 32, P - 1]);
    c.state(&(t, n, secret));
    let mut all = std::collections::BTreeSet::new();
    let mut k = 0;
    for _ in 0..2 {
        let shares = match guard(|| split_secret(min_bytes(secret), t as u8, n as u8, &big(P)).map_err(|e| e.to_string())) { Ok(Ok(s)) => s, o => return violation("split", format!("{} of {}: {:?}", t, n, o)) };
        let pts: Vec<(u64, u64)> = shares.iter().map(|s| (s.identifier as u64, val(&s.value))).collect();
        c.ensure(pts.len() == n && pts.iter().enumerate().all(|(i, x)| x.0 == i as u64 + 1), "split", || "shares misnumbered".into())?;
        let co = coefs(&pts[..t], P);
        for x in &pts { c.step(); c.ensure(at(&co, x.0, P) == x.1, "split:degree", || format!("{} of {}: share {} is off the polynomial", t, n, x.0))?; }
        c.ensure(co[0] == secret, "split", || "not the secret".into())?;
        for x in &co[1..] { k += 1; all.insert(*x); c.ensure(*x != 0 && *x != secret, "split:coefficients", || format!("{} of {}: coefficients {:?}", t, n, co))?; }
        c.ensure(all.len() == k, "split:coefficients", || format!("{} of {}: a coefficient repeats: {:?}", t, n, co))?;
        let last = n - t;
        let mut sels: Vec<Vec<usize>> = vec![0, last / 2, last].into_iter().map(|o| (o..o + t).collect()).collect();
        sels.push((0..t).rev().collect());
        sels.push((0..t).map(|x| x * (n - 1) / (t - 1)).collect());
        for sel in sels {
            let some: Vec<Share> = sel.iter().map(|i| shares[*i].clone()).collect();
            c.steps(2);
            c.ensure(guard(|| combine_shares(&some, &big(P)).ok().map(|b| num(&b))) == Ok(Some(secret)), "split:combine", || format!("{} of {}: shares {:?}", t, n, sel))?;
            c.ensure(combine_shares(&some[..t - 1], &big(P)).ok().map(|b| num(&b)) != Some(secret), "split:few", || format!("{} of {}: {} shares", t, n, t - 1))?;
            for i in 0..t { if i != t / 2 {
                let mut d = some.clone(); d[i] = some[t / 2].clone(); c.step();
                c.ensure(combine_shares(&d, &big(P)).is_err(), "split:duplicate", || format!("{} of {}: share {} given twice", t, n, i))?;
                let mut d = some.clone(); d[i].identifier = 0; c.step();
                c.ensure(combine_shares(&d, &big(P)).is_err(), "split:zero", || format!("{} of {}: share {} with identifier 0", t, n, i))?;
            }}
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Fields of up to 4096 bits.
fn fields(c: &mut Ctx) -> R {
    let (bits, minus) = c.pick("field", &[(127usize, 1u64), (521, 1), (607, 1), (1279, 1), (2203, 1), (4423, 1)]);
    let t = 2 + c.choose("threshold", 3);
    let l = c.pick("secret", &[1usize, 15, 16, 32, 33, 64, 65, 66, 100, 159, 160, 275, 276, 552, 553]);
    c.state(&(bits, t, l));
    let _ = minus;
    let p = BigNumber::from_hex(&format!("{:X}{}", (1u32 << (bits % 4)) - 1, "F".repeat(bits / 4))).unwrap();
    let secret: Vec<u8> = (0..l).map(|i| if i == 0 { 1 } else { (i * 37 + 11) as u8 }).collect();
    let fits = l <= (bits + 7) / 8 && (l < (bits + 7) / 8 || bits % 8 != 0);
    let shares = match guard(|| split_secret(&secret, t as u8, t as u8 + 1, &p).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => { c.ensure(!fits, "fields", || format!("secret of {} bytes in a field of {} bits: {}", l, bits, e))?; c.outcome("too large"); return Ok(()) }
        Err(m) => return violation("fields:panic", m),
    };
    if bits % 8 != 1 { c.ensure(fits, "fields", || format!("secret of {} bytes is split in a field of {} bits", l, bits))?; }
    for sel in combos(t + 1, t) {
        let some: Vec<Share> = sel.iter().map(|i| shares[*i].clone()).collect();
        let via: Vec<Share> = some.iter().map(|s| Share::from_bytes(s.to_bytes(), &p).unwrap()).collect();
        c.steps(2);
        c.ensure(guard(|| combine_shares(&some, &p).ok()) == Ok(Some(secret.clone())), "fields", || format!("field of {} bits, secret of {} bytes, shares {:?}", bits, l, sel))?;
        c.ensure(guard(|| combine_shares(&via, &p).ok()) == Ok(Some(secret.clone())), "bytes", || format!("field of {} bits, secret of {} bytes, shares {:?} from bytes", bits, l, sel))?;
        for (a, b) in some.iter().zip(&via) { c.ensure(a.identifier == b.identifier && a.value == b.value, "bytes", || "a share from its bytes".into())?; }
    }
    c.outcome("ok");
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one polynomial, set of shares or split; all subsets (and orders of up to three) of its shares are combined. A state is one combination of choices, a transition one call judged.".into(),
        assumptions: vec!["shares of value zero are refused by documented design and not judged".into()],
        scenarios: vec![
            Scenario::new("combine", "all polynomials of degree 1 and 2 over GF(5), GF(7), GF(11) x all subsets and orders of 4 (5) shares", combine),
            Scenario::new("refuse", "all sets of at most 3 shares with 6 identifiers x 2 values over 5 fields", refuse),
            Scenario::new("split", "8 fields x thresholds 0..6 x 11 totals x 8 secrets", split),
            Scenario::new("wide", "field of 61 bits x 9 thresholds to 20 x totals to 255 x 5 secrets, twice", wide),
            Scenario::new("fields", "Mersenne fields of 127 to 4423 bits x thresholds 2..4 x secrets of 15 lengths, also through bytes", fields),
            Scenario::new("large", "256-bit field x thresholds 2..5 x secrets of 1..33 bytes with 0..2 leading zeros x all subsets", large),
        ],
    }
}
