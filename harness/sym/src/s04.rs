//! S04: BLS signatures over BLS12-381, both variants, against formal sums of (signer, message) pairs.
use crate::s01::{bytes, flip};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use mc::*;
use openssl::pkey::PKey;
use openssl::sign::Signer as OSigner;
use std::collections::BTreeMap;
use ursa::keys::{KeyGenOption, PrivateKey as UK, PublicKey as UP};
use ursa::signatures::SignatureScheme;

pub fn secret(i: usize) -> FieldElement { FieldElement::from_msg_hash(&[i as u8, 77]) }
fn hmac(key: &[u8], m: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(key).unwrap();
    let mut s = OSigner::new(openssl::hash::MessageDigest::sha256(), &k).unwrap();
    s.update(m).unwrap();
    s.sign_to_vec().unwrap()
}
/// HKDF with the draft's parameters.
fn derived(seed: &[u8]) -> FieldElement {
    let prk = hmac(b"BLS-SIG-KEYGEN-SALT-", &[seed, &[0]].concat());
    let t1 = hmac(&prk, &[0, 48, 1]);
    let t2 = hmac(&prk, &[&t1[..], &[0, 48, 2]].concat());
    let mut okm = [0u8; 48];
    okm[..32].copy_from_slice(&t1);
    okm[32..].copy_from_slice(&t2[..16]);
    FieldElement::from(&okm)
}
const MSGS: [&[u8]; 3] = [b"first message", b"second message", b""];
const CTXS: [Option<&'static [u8]>; 3] = [None, Some(b"for signing messages"), Some(b"context")];
/// Multisets of at most `max` out of `n`.
fn multisets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for v in &last {
            for x in v.last().cloned().unwrap_or(0)..n {
                let mut w: Vec<usize> = v.clone();
                w.push(x);
                next.push(w);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
fn lists(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next: Vec<Vec<usize>> = vec![];
        for v in &last {
            for x in 0..n { let mut w: Vec<usize> = v.clone(); w.push(x); next.push(w); }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
macro_rules! variant { ($m:ident) => { pub mod $m {
    use super::*;
    use ursa::signatures::bls::$m::*;
    fn g(i: usize) -> Generator { if i == 0 { Generator::generator() } else { Generator::from_msg_hash(b"another generator") } }
    fn key(i: usize) -> PublicKey { PublicKey::new(&secret(i), &g(0)) }
    fn sig(i: usize, m: usize) -> Signature { Signature::new(MSGS[m], None, &secret(i)) }
    fn sum(v: &[(usize, usize)]) -> Option<Signature> {
        let s: Vec<Signature> = v.iter().map(|(i, m)| sig(*i, *m)).collect();
        if s.is_empty() { return None }
        let mut x = s[0].clone();
        x.combine(&s[1..]);
        Some(x)
    }
    fn formal(v: &[(usize, usize)]) -> BTreeMap<(usize, usize), usize> {
        let mut r = BTreeMap::new();
        for x in v { *r.entry(*x).or_insert(0) += 1 }
        r
    }
    fn yes(c: &mut Ctx, got: Result<bool, String>, want: bool, vkey: &str, what: impl FnOnce() -> String) -> R {
        c.step();
        match got {
            Ok(x) => c.ensure(x == want, vkey, || format!("{} {}: {} though it should be {}", stringify!($m), what(), x, want)),
            Err(p) => violation(format!("{}:panic", vkey), format!("{} {}: panic: {}", stringify!($m), what(), p)),
        }
    }
    pub fn single(c: &mut Ctx) -> R {
        let (i, m, cx, gi) = (c.choose("signer", 3), c.choose("message", 3), c.choose("context", 3), c.choose("generator", 2));
        let form = c.choose("form", 3);
        c.state(&(i, m, cx, gi, form));
        let mut s = Signature::new(MSGS[m], CTXS[cx], &secret(i));
        let p = PublicKey::new(&secret(i), &g(gi));
        if form == 1 {
            s = Signature::from_bytes(&s.to_bytes()).map_err(|e| Violation { key: "bytes".into(), msg: e.to_string() })?;
        }
        if form == 2 {
            s = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
        }
        for j in 0..3 { for m2 in 0..3 { for cx2 in 0..3 { for g1 in 0..2 { for g2 in 0..2 {
            if (j != i) as u8 + (m2 != m) as u8 + (cx2 != cx) as u8 + (g1 != gi) as u8 + (g2 != gi) as u8 > c.q(1, 5) { continue }
            let q = PublicKey::new(&secret(j), &g(g1));
            let q = match form { 0 => q, 1 => PublicKey::from_bytes(&q.to_bytes()).unwrap(), _ => serde_json::from_str(&serde_json::to_string(&q).unwrap()).unwrap() };
            let want = i == j && m == m2 && cx.max(1) == cx2.max(1) && g1 == g2;
            yes(c, guard(|| s.verify(MSGS[m2], CTXS[cx2], &q, &g(g2))), want, "verify", || format!("signer {} message {} context {}; key {} message {} context {} generators {} {}", i, m, cx, j, m2, cx2, g1, g2))?;
        }}}}}
        // a proof of possession is not a signature of the key's bytes
        if m == 0 {
            let pop = ProofOfPossession::new(&p, CTXS[cx].filter(|_| cx > 1), &secret(i));
            for j in 0..3 { for cx2 in 0..2 {
                let x = if cx2 == 0 { None } else { CTXS[2] };
                yes(c, guard(|| pop.verify(x, &PublicKey::new(&secret(j), &g(gi)), &g(gi))), i == j && (cx > 1) == (cx2 == 1), "pop", || format!("proof of {} for {}", i, j))?;
            }}
            yes(c, guard(|| Signature::from_bytes(&pop.to_bytes()).unwrap().verify(p.to_bytes(), None, &p, &g(gi))), cx > 1 && false, "pop:signature", || "a proof of possession is a signature".into())?;
            let s = Signature::new(p.to_bytes(), None, &secret(i));
            yes(c, guard(|| ProofOfPossession::from_bytes(&s.to_bytes()).unwrap().verify(None, &p, &g(gi))), false, "pop:signature", || "a signature is a proof of possession".into())?;
        }
        if gi == 0 && cx == 0 {
            // the same through the scheme's bytes
            let b = Bls::new();
            let k = UK(secret(i).to_bytes());
            let s1 = b.sign(MSGS[m], &k).map_err(|e| Violation { key: "scheme".into(), msg: e.to_string() })?;
            c.ensure(s1 == s.to_bytes() && s1.len() == Bls::signature_size() && p.to_bytes().len() == Bls::public_key_size(), "scheme", || "signature differs".into())?;
            for j in 0..3 { for m2 in 0..3 {
                yes(c, guard(|| b.verify(MSGS[m2], &s1, &UP(key(j).to_bytes())).unwrap_or(false)), i == j && m == m2, "scheme", || format!("{} {} {} {}", i, j, m, m2))?;
            }}
        }
        c.outcome("ok");
        Ok(())
    }
    /// Sums of signatures against lists of keys: accepted exactly if the formal sums agree.
    pub fn sums(c: &mut Ctx) -> R {
        let n = c.q(3, 4);
        let all: Vec<(usize, usize)> = (0..3).flat_map(|i| (0..2).map(move |m| (i, m))).collect();
        let ms = multisets(all.len(), n);
        let v: Vec<(usize, usize)> = ms[c.choose("signatures", ms.len())].iter().map(|x| all[*x]).collect();
        c.state(&v);
        let s = sum(&v);
        let asg = AggregatedSignature::new(&v.iter().map(|(i, m)| sig(*i, *m)).collect::<Vec<_>>());
        for keys in multisets(3, 3) {
            let pks: Vec<PublicKey> = keys.iter().map(|i| key(*i)).collect();
            for m in 0..2 {
                let want = !keys.is_empty() && formal(&v) == formal(&keys.iter().map(|i| (*i, m)).collect::<Vec<_>>());
                yes(c, guard(|| asg.verify_no_rk(MSGS[m], None, &pks, &g(0))), want, "verify_no_rk", || format!("signatures {:?} keys {:?} message {}", v, keys, m))?;
                if let (Some(s), false) = (&s, pks.is_empty()) {
                    let mut p = pks[0].clone();
                    p.combine(&pks[1..]);
                    yes(c, guard(|| s.verify(MSGS[m], None, &p, &g(0))), want, "combined", || format!("signatures {:?} keys {:?} message {}", v, keys, m))?;
                }
            }
        }
        if let Some(s) = &s {
            for inputs in lists(all.len(), 2).into_iter().chain(if v.len() == 3 { vec![v.iter().map(|x| all.iter().position(|y| x == y).unwrap()).collect()] } else { vec![] }) {
                let ins: Vec<(usize, usize)> = inputs.iter().map(|x| all[*x]).collect();
                let distinct = ins.iter().all(|x| ins.iter().filter(|y| x.1 == y.1).count() == 1);
                let pks: Vec<PublicKey> = ins.iter().map(|x| key(x.0)).collect();
                let refs: Vec<(&[u8], &PublicKey)> = ins.iter().zip(&pks).map(|(x, p)| (MSGS[x.1], p)).collect();
                let want = !ins.is_empty() && distinct && formal(&v) == formal(&ins);
                yes(c, guard(|| s.verify_multi(&refs, None, &g(0))), want, "verify_multi", || format!("signatures {:?} inputs {:?}", v, ins))?;
            }
        }
        c.outcome("ok");
        Ok(())
    }
    /// Aggregation that withstands rogue keys.
    pub fn rogue(c: &mut Ctx) -> R {
        let ls = lists(3, 3);
        let l = ls[1 + c.choose("group", ls.len() - 1)].clone();
        let m = c.choose("message", 2);
        c.state(&(&l, m));
        let pks: Vec<PublicKey> = l.iter().map(|i| key(*i)).collect();
        let parts: Vec<Signature> = l.iter().enumerate().map(|(x, i)| Signature::new_with_rk_mitigation(MSGS[m], None, &secret(*i), x, &pks)).collect();
        let apk = AggregatedPublicKey::new(&pks);
        let apk = AggregatedPublicKey::from_bytes(&apk.to_bytes()).unwrap();
        // every choice of the parts, none to twice each
        let mut counts = vec![0usize; l.len()];
        loop {
            let mut sel = vec![];
            for (x, n) in counts.iter().enumerate() { for _ in 0..*n { sel.push(parts[x].clone()) } }
            let asg = AggregatedSignature::new(&sel);
            let mut have: BTreeMap<usize, usize> = BTreeMap::new();
            let mut need: BTreeMap<usize, usize> = BTreeMap::new();
            for (x, n) in counts.iter().enumerate() { *have.entry(l[x]).or_insert(0) += n; *need.entry(l[x]).or_insert(0) += 1; }
            for m2 in 0..2 {
                yes(c, guard(|| asg.verify(MSGS[m2], None, &apk, &g(0))), have == need && m == m2, "aggregate", || format!("group {:?} parts {:?} message {}/{}", l, counts, m, m2))?;
            }
            let mut p = 0;
            while p < counts.len() && counts[p] == if l.len() < 3 { 2 } else { c.q(1, 2) } { counts[p] = 0; p += 1 }
            if p == counts.len() { break }
            counts[p] += 1;
        }
        let full = AggregatedSignature::new(&parts);
        let full = AggregatedSignature::from_bytes(&full.to_bytes()).unwrap();
        for l2 in &ls {
            // in quick runs, of the larger groups only those with the same members or their order changed
            let sorted = |v: &Vec<usize>| { let mut v = v.clone(); v.sort(); v };
            if l2.is_empty() || (!c.thorough() && l2.len() == 3 && sorted(l2) != sorted(&l)) { continue }
            let other = AggregatedPublicKey::new(&l2.iter().map(|i| key(*i)).collect::<Vec<_>>());
            yes(c, guard(|| full.verify(MSGS[m], None, &other, &g(0))), *l2 == l, "aggregate:keys", || format!("group {:?} verified for {:?}", l, l2))?;
        }
        yes(c, guard(|| full.verify_no_rk(MSGS[m], None, &pks, &g(0))), false, "aggregate:no_rk", || format!("group {:?} without the coefficients", l))?;
        for (x, s) in parts.iter().enumerate() {
            yes(c, guard(|| s.verify(MSGS[m], None, &pks[x], &g(0))), false, "aggregate:part", || "a part is a plain signature".into())?;
        }
        // a part computed for another place in the group or by another member
        for x in 0..l.len() { for y in 0..l.len() { for i in 0..3 {
            if (l[y] == l[x] && i == l[x]) || (!c.thorough() && l.len() == 3 && y != x && i != l[x]) { continue }
            let mut v = parts.clone();
            v[x] = Signature::new_with_rk_mitigation(MSGS[m], None, &secret(i), y, &pks);
            let mut want = false;
            if i == l[x] && l[y] == l[x] { want = true }
            yes(c, guard(|| AggregatedSignature::new(&v).verify(MSGS[m], None, &apk, &g(0))), want, "aggregate:place", || format!("group {:?}: part {} computed by {} for place {}", l, x, i, y))?;
        }}}
        // the last member's key chosen to cancel the others' keys
        if l.len() > 1 {
            let x = secret(9);
            let mut r = g(0) * &x;
            for i in &l[..l.len() - 1] { r = r - &(g(0) * &secret(*i)); }
            let mut v = pks.clone();
            let rk = PublicKey::from_bytes(&r.to_bytes(false)).unwrap();
            *v.last_mut().unwrap() = rk.clone();
            let apk = AggregatedPublicKey::new(&v);
            for s in &[Signature::new(MSGS[m], None, &x), Signature::new_with_rk_mitigation(MSGS[m], None, &x, v.len() - 1, &v)] {
                yes(c, guard(|| AggregatedSignature::new(&[s.clone()]).verify(MSGS[m], None, &apk, &g(0))), false, "rogue", || format!("{:?}", l))?;
            }
            yes(c, guard(|| ProofOfPossession::new(&rk, None, &x).verify(None, &rk, &g(0))), false, "rogue:pop", || "the rogue key has a proof of possession".into())?;
        }
        c.outcome("ok");
        Ok(())
    }
    /// Larger groups: each member's part is needed at its own place; messages must differ pairwise.
    pub fn many(c: &mut Ctx) -> R {
        let n = c.pick("members", &[4usize, 5, 6, 9]);
        let how = c.choose("kind", 4);
        c.state(&(n, how));
        let pks: Vec<PublicKey> = (0..n).map(key).collect();
        let rest = |x: usize| (0..n).filter(|y| *y != x).collect::<Vec<_>>();
        let msgs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; 10]).collect();
        match how {
            0 => {
                let parts: Vec<Signature> = (0..n).map(|i| Signature::new_with_rk_mitigation(MSGS[0], None, &secret(i), i, &pks)).collect();
                let apk = AggregatedPublicKey::new(&pks);
                let check = |c: &mut Ctx, v: &[Signature], apk: &AggregatedPublicKey, want: bool, what: String| yes(c, guard(|| AggregatedSignature::new(v).verify(MSGS[0], None, apk, &g(0))), want, "many:aggregate", || format!("{} members, {}", n, what));
                check(c, &parts, &apk, true, "all".into())?;
                for i in 0..n {
                    check(c, &rest(i).iter().map(|x| parts[*x].clone()).collect::<Vec<_>>(), &apk, false, format!("part {} left out", i))?;
                    let mut v = parts.clone(); v[i] = Signature::new_with_rk_mitigation(MSGS[0], None, &secret(i), (i + 1) % n, &pks);
                    check(c, &v, &apk, false, format!("part {} for the next place", i))?;
                    let o: Vec<PublicKey> = rest(i).iter().map(|x| pks[*x].clone()).collect();
                    check(c, &parts, &AggregatedPublicKey::new(&o), false, format!("key {} left out", i))?;
                    let mut o = pks.clone(); o[i] = key(20);
                    check(c, &parts, &AggregatedPublicKey::new(&o), false, format!("key {} a stranger's", i))?;
                    let mut o = pks.clone(); o.swap(i, (i + 1) % n);
                    check(c, &parts, &AggregatedPublicKey::new(&o), false, format!("keys {} and next exchanged", i))?;
                }
            }
            1 => {
                let sigs: Vec<Signature> = (0..n).map(|i| Signature::new(MSGS[0], None, &secret(i))).collect();
                let asg = |v: &[usize]| AggregatedSignature::new(&v.iter().map(|x| sigs[*x].clone()).collect::<Vec<_>>());
                let all: Vec<usize> = (0..n).collect();
                yes(c, guard(|| asg(&all).verify_no_rk(MSGS[0], None, &pks, &g(0))), true, "many:no_rk", || format!("{} members", n))?;
                for i in 0..n {
                    let o: Vec<PublicKey> = rest(i).iter().map(|x| pks[*x].clone()).collect();
                    yes(c, guard(|| asg(&rest(i)).verify_no_rk(MSGS[0], None, &pks, &g(0))), false, "many:no_rk", || format!("{} members, signature {} left out", n, i))?;
                    yes(c, guard(|| asg(&all).verify_no_rk(MSGS[0], None, &o, &g(0))), false, "many:no_rk", || format!("{} members, key {} left out", n, i))?;
                    yes(c, guard(|| asg(&rest(i)).verify_no_rk(MSGS[0], None, &o, &g(0))), true, "many:no_rk", || format!("{} members, member {} left out", n, i))?;
                }
            }
            2 => {
                // distinct messages; any two the same: refused, though all signatures are right
                let make = |ms: &[Vec<u8>]| { let mut s = Signature::new(&ms[0], None, &secret(0)); s.combine(&(1..n).map(|i| Signature::new(&ms[i], None, &secret(i))).collect::<Vec<_>>()); s };
                let check = |c: &mut Ctx, s: &Signature, ms: &[Vec<u8>], ks: &[PublicKey], want: bool, what: String| yes(c, guard(|| s.verify_multi(&ms.iter().zip(ks).map(|(m, k)| (&m[..], k)).collect::<Vec<_>>(), None, &g(0))), want, "many:multi", || format!("{} members, {}", n, what));
                let s = make(&msgs);
                check(c, &s, &msgs, &pks, true, "all".into())?;
                for i in 0..n {
                    for j in 0..i {
                        let mut m = msgs.clone(); m[i] = m[j].clone();
                        check(c, &make(&m), &m, &pks, false, format!("messages {} and {} the same", i, j))?;
                        let mut m = msgs.clone(); m.swap(i, j);
                        check(c, &s, &m, &pks, false, format!("messages {} and {} exchanged", i, j))?;
                    }
                    let mut k = pks.clone(); k[i] = key(20);
                    check(c, &s, &msgs, &k, false, format!("key {} a stranger's", i))?;
                    let mut m = msgs.clone(); m[i] = b"not signed".to_vec();
                    check(c, &s, &m, &pks, false, format!("message {} another", i))?;
                    if i > 0 { check(c, &s, &msgs[..i], &pks[..i], false, format!("the first {}", i))?; }
                    let mut k = pks.clone(); k[i] = PublicKey::from_bytes(&Generator::identity().to_bytes(false)).unwrap_or(key(20));
                    let mut o = Signature::new(&msgs[rest(i)[0]], None, &secret(rest(i)[0]));
                    o.combine(&rest(i)[1..].iter().map(|x| Signature::new(&msgs[*x], None, &secret(*x))).collect::<Vec<_>>());
                    check(c, &o, &msgs, &k, false, format!("key {} neutral", i))?;
                }
            }
            _ => {
                let agg: Vec<AggregatedPublicKey> = (0..n).map(|i| AggregatedPublicKey::new(&[key(i)])).collect();
                let sigs: Vec<Signature> = (0..n).map(|i| Signature::new(&msgs[i], None, &secret(i))).collect();
                let asig: Vec<AggregatedSignature> = (0..n).map(|i| AggregatedSignature::new(&[Signature::new_with_rk_mitigation(&msgs[i], None, &secret(i), 0, &[key(i)])])).collect();
                let nk = PublicKey::from_bytes(&Generator::identity().to_bytes(false));
                let na = AggregatedPublicKey::from_bytes(&Generator::identity().to_bytes(false));
                let neutral = Signature::from_bytes(&SignatureGroup::identity().to_bytes(false)).ok();
                let aneutral = AggregatedSignature::from_bytes(&SignatureGroup::identity().to_bytes(false)).ok();
                for i in 0..=n { for kind in 0..4 {
                    if i == n && kind > 0 { continue }
                    let pick = |x: usize| match kind { 1 if x == i => (x + 1) % n, _ => x };
                    let m = |x: usize| if kind == 0 && x == i { &b"not signed"[..] } else { &msgs[x][..] };
                    let want = i == n;
                    let k = |x: usize| if x == i && kind == 2 { &pks[(x + 1) % n] } else if let (true, Ok(k)) = (x == i && kind == 3, &nk) { k } else { &pks[x] };
                    let a = |x: usize| if x == i && kind == 2 { &agg[(x + 1) % n] } else if let (true, Ok(k)) = (x == i && kind == 3, &na) { k } else { &agg[x] };
                    if kind == 3 && (nk.is_err() || na.is_err() || neutral.is_none() || aneutral.is_none()) { continue }
                    let sg = |x: usize| if kind == 3 && x == i { neutral.as_ref().unwrap() } else { &sigs[pick(x)] };
                    let asg = |x: usize| if kind == 3 && x == i { aneutral.as_ref().unwrap() } else { &asig[pick(x)] };
                    yes(c, guard(|| Signature::batch_verify(&(0..n).map(|x| (m(x), sg(x), k(x))).collect::<Vec<_>>(), None, &g(0))), want, "many:batch", || format!("{} members, number {} bad ({})", n, i, kind))?;
                    yes(c, guard(|| AggregatedSignature::batch_verify(&(0..n).map(|x| (m(x), asg(x), a(x))).collect::<Vec<_>>(), None, &g(0))), want, "many:batch", || format!("{} aggregates, number {} bad ({})", n, i, kind))?;
                }}
            }
        }
        c.outcome("ok");
        Ok(())
    }
    /// The context is part of what is signed, whatever the verification.
    pub fn contexts(c: &mut Ctx) -> R {
        let how = c.choose("verification", 8);
        let n = 1 + c.choose("members", c.q(3, 5));
        // the last ones are long and differ only in their last byte, their first or their length
        static L: [u8; 300] = { let mut x = [7u8; 300]; x[299] = 8; x };
        static L1: [u8; 300] = { let mut x = [7u8; 300]; x[0] = 8; x[299] = 8; x };
        static L2: [u8; 300] = [7u8; 300];
        let cx = c.choose("context", 8);
        c.state(&(how, n, cx));
        let mut ctx: [Option<&'static [u8]>; 8] = [None, Some(b"for signing messages"), Some(b"context"), Some(b""), Some(&L), Some(&L1), Some(&L2), Some(&L2[..299])];
        let mut pctx = ctx;
        pctx[1] = Some(b"for signing public keys for proof of possession");
        ctx[0] = None;
        let pks: Vec<PublicKey> = (0..n).map(key).collect();
        let msgs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; 10]).collect();
        let plain = |m: &dyn Fn(usize) -> usize| -> Vec<Signature> { (0..n).map(|i| Signature::new(&msgs[m(i)], ctx[cx], &secret(i))).collect() };
        let (own, one) = (plain(&|i| i), plain(&|_| 0));
        let comb = |v: &[Signature]| { let mut s = v[0].clone(); s.combine(&v[1..]); s };
        let parts: Vec<Signature> = (0..n).map(|i| Signature::new_with_rk_mitigation(&msgs[0], ctx[cx], &secret(i), i, &pks)).collect();
        let single: Vec<(AggregatedSignature, AggregatedPublicKey)> = (0..n).map(|i| (AggregatedSignature::new(&[Signature::new_with_rk_mitigation(&msgs[i], ctx[cx], &secret(i), 0, &[key(i)])]), AggregatedPublicKey::new(&[key(i)]))).collect();
        for v in 0..8 {
            let want = cx == v || cx.max(v) == 1;
            if !c.thorough() && cx.max(v) > 3 && !want && cx.min(v) < 4 { continue }
            let got = guard(|| match how {
                0 => own[0].verify(&msgs[0], ctx[v], &pks[0], &g(0)),
                1 => { let mut p = pks[0].clone(); p.combine(&pks[1..]); comb(&one).verify(&msgs[0], ctx[v], &p, &g(0)) }
                2 => comb(&own).verify_multi(&(0..n).map(|i| (&msgs[i][..], &pks[i])).collect::<Vec<_>>(), ctx[v], &g(0)),
                3 => Signature::batch_verify(&(0..n).map(|i| (&msgs[i][..], &own[i], &pks[i])).collect::<Vec<_>>(), ctx[v], &g(0)),
                4 => AggregatedSignature::new(&parts).verify(&msgs[0], ctx[v], &AggregatedPublicKey::new(&pks), &g(0)),
                5 => AggregatedSignature::new(&one).verify_no_rk(&msgs[0], ctx[v], &pks, &g(0)),
                6 => AggregatedSignature::batch_verify(&(0..n).map(|i| (&msgs[i][..], &single[i].0, &single[i].1)).collect::<Vec<_>>(), ctx[v], &g(0)),
                _ => ProofOfPossession::new(&pks[n - 1], pctx[cx], &secret(n - 1)).verify(pctx[v], &pks[n - 1], &g(0)),
            });
            yes(c, got, want, "context", || format!("verification {} of {} members, signed in context {} and verified in {}", how, n, cx, v))?;
        }
        c.outcome("ok");
        Ok(())
    }
    /// Another context with another message is something else, wherever the text is cut.
    pub fn boundary(c: &mut Ctx) -> R {
        let text: &'static [u8] = b"for signing messages";
        let (a, b) = (c.choose("signed", text.len() + 1), c.choose("verified", text.len() + 1));
        c.state(&(a, b));
        let s = Signature::new(&text[a..], Some(&text[..a]), &secret(0));
        yes(c, guard(|| s.verify(&text[b..], Some(&text[..b]), &key(0), &g(0))), a == b, if a == b { "context" } else { "context-boundary" }, || format!("{:?} signed in the context {:?}, {:?} verified in {:?}", &text[a..], &text[..a], &text[b..], &text[..b]))
    }
    /// Crowds: every member counts, wherever it stands.
    pub fn crowd(c: &mut Ctx) -> R {
        let n = c.pick("members", if c.thorough() { &[10usize, 13, 17, 33, 65, 129] } else { &[13usize, 33] });
        let how = c.choose("kind", 6);
        let mut places: Vec<usize> = vec![0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, n / 2, n - 2, n - 1].into_iter().filter(|x| *x < n).collect();
        places.sort();
        places.dedup();
        let x = places[c.choose("place", places.len())];
        c.state(&(n, how, x));
        let pks: Vec<PublicKey> = (0..n).map(key).collect();
        let msgs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; 10]).collect();
        let ksum = |v: &[PublicKey]| { let mut p = v[0].clone(); p.combine(&v[1..]); p };
        let comb = |v: &[Signature]| { let mut s = v[0].clone(); s.combine(&v[1..]); s };
        fn without<T: Clone>(v: &[T], x: usize) -> Vec<T> { v.iter().enumerate().filter(|y| y.0 != x).map(|y| y.1.clone()).collect() }
        let mut other = pks.clone(); other[x] = key(200);
        let v: Vec<(bool, Result<bool, String>)> = match how {
            0 => {
                let s: Vec<Signature> = (0..n).map(|i| Signature::new(MSGS[0], None, &secret(i))).collect();
                let go = |s: &[Signature], k: &[PublicKey]| guard(|| comb(s).verify(MSGS[0], None, &ksum(k), &g(0)));
                vec![(true, go(&s, &pks)), (false, go(&without(&s, x), &pks)), (false, go(&s, &without(&pks, x))), (false, go(&s, &other)), (true, go(&without(&s, x), &without(&pks, x)))]
            }
            1 => {
                let s: Vec<Signature> = (0..n).map(|i| Signature::new(MSGS[0], None, &secret(i))).collect();
                let go = |s: &[Signature], k: &[PublicKey]| guard(|| AggregatedSignature::new(s).verify_no_rk(MSGS[0], None, k, &g(0)));
                vec![(true, go(&s, &pks)), (false, go(&without(&s, x), &pks)), (false, go(&s, &without(&pks, x))), (false, go(&s, &other)), (true, go(&without(&s, x), &without(&pks, x)))]
            }
            2 => {
                let s: Vec<Signature> = (0..n).map(|i| Signature::new_with_rk_mitigation(MSGS[0], None, &secret(i), i, &pks)).collect();
                let go = |s: &[Signature], k: &[PublicKey]| guard(|| AggregatedSignature::new(s).verify(MSGS[0], None, &AggregatedPublicKey::new(k), &g(0)));
                vec![(true, go(&s, &pks)), (false, go(&without(&s, x), &pks)), (false, go(&s, &without(&pks, x))), (false, go(&s, &other)), (false, go(&without(&s, x), &without(&pks, x)))]
            }
            3 => {
                // every member's coefficient depends on every key of the group
                let part = |i: usize, k: &[PublicKey]| Signature::new_with_rk_mitigation(MSGS[0], None, &secret(i), i, k).to_bytes();
                let swapped = { let mut k = pks.clone(); k.swap(x, (x + 1) % n); k };
                (0..n).filter(|i| *i != x && *i != (x + 1) % n).step_by(1 + n / 12).flat_map(|i| vec![(false, guard(|| part(i, &other) == part(i, &pks))), (false, guard(|| part(i, &swapped) == part(i, &pks)))]).collect()
            }
            4 => {
                let s: Vec<Signature> = (0..n).map(|i| Signature::new(&msgs[i], None, &secret(i))).collect();
                let go = |s: &[Signature], m: &[Vec<u8>], k: &[PublicKey]| guard(|| comb(s).verify_multi(&m.iter().zip(k).map(|(m, k)| (&m[..], k)).collect::<Vec<_>>(), None, &g(0)));
                let mut m2 = msgs.clone(); m2[x] = b"not signed".to_vec();
                let (mut m3, mut s3) = (msgs.clone(), s.clone()); m3[x] = msgs[(x + 1) % n].clone(); s3[x] = Signature::new(&m3[x], None, &secret(x));
                vec![(true, go(&s, &msgs, &pks)), (false, go(&s, &m2, &pks)), (false, go(&s, &msgs, &other)), (false, go(&without(&s, x), &msgs, &pks)), (false, go(&s, &without(&msgs, x), &without(&pks, x))), (false, go(&s3, &m3, &pks))]
            }
            _ => {
                let s: Vec<Signature> = (0..n).map(|i| Signature::new(&msgs[i], None, &secret(i))).collect();
                let go = |s: &[Signature], m: &[Vec<u8>], k: &[PublicKey]| guard(|| Signature::batch_verify(&(0..s.len()).map(|i| (&m[i][..], &s[i], &k[i])).collect::<Vec<_>>(), None, &g(0)));
                let mut m2 = msgs.clone(); m2[x] = b"not signed".to_vec();
                let mut s2 = s.clone(); s2[x] = Signature::new(MSGS[0], None, &secret(x));
                let mut s3 = s.clone(); s3.swap(x, (x + 1) % n);
                vec![(true, go(&s, &msgs, &pks)), (false, go(&s, &m2, &pks)), (false, go(&s2, &msgs, &pks)), (false, go(&s, &msgs, &other)), (false, go(&s3, &msgs, &pks)), (true, go(&without(&s, x), &without(&msgs, x), &without(&pks, x)))]
            }
        };
        for (j, (want, got)) in v.into_iter().enumerate() { yes(c, got, want, "crowd", || format!("{} members, kind {}, place {}, case {}", n, how, x, j))?; }
        c.outcome("ok");
        Ok(())
    }
    /// Long messages: only the whole of what was signed verifies.
    pub fn long(c: &mut Ctx) -> R {
        let l = c.pick("length", &[32usize, 33, 64, 128, 255, 256, 257, 1000, 4096, 65537]);
        c.state(&l);
        let m = bytes(l, 5);
        let s = Signature::new(&m, None, &secret(0));
        yes(c, guard(|| s.verify(&m, None, &key(0), &g(0))), true, "long", || format!("{} bytes", l))?;
        for b in vec![0, 1, 31, 32, 33, 63, 64, 127, 128, 255, 256, 512, 1023, 1024, 4095, 65535, 65536, l - 1, l / 2] {
            if b >= l { continue }
            let mut x = m.clone(); x[b] ^= 1;
            yes(c, guard(|| s.verify(&x, None, &key(0), &g(0))), false, "long", || format!("{} bytes, byte {} altered", l, b))?;
            yes(c, guard(|| s.verify(&m[..b], None, &key(0), &g(0))), false, "long", || format!("{} bytes, the first {}", l, b))?;
        }
        c.outcome("ok");
        Ok(())
    }
    /// Batches are accepted exactly if each member is.
    pub fn batch(c: &mut Ctx) -> R {
        let n = 1 + c.choose("members", 3);
        let agg = c.flag("aggregated");
        let mut kinds = vec![];
        for x in 0..n { kinds.push(c.choose(["first", "second", "third"][x], 4)) } // right, next message, next signer, offset
        let same = c.flag("same message");
        c.state(&(n, agg, &kinds, same));
        let mut want = true;
        let off = sig(7, 0);
        let mut minus = false;
        let (mut sigs, mut asigs, mut pks, mut apks, mut ms) = (vec![], vec![], vec![], vec![], vec![]);
        for (x, k) in kinds.iter().enumerate() {
            let m = if same { 0 } else { x };
            let (i, sm) = (if *k == 2 { (x + 1) % 3 } else { x }, if *k == 1 { (m + 1) % 3 } else { m });
            let p = vec![key(x), key(5)];
            let mut s = if agg {
                let mut s = Signature::new_with_rk_mitigation(MSGS[sm], None, &secret(i), 0, &p);
                s.combine(&[Signature::new_with_rk_mitigation(MSGS[sm], None, &secret(5), 1, &p)]);
                s
            } else { sig(i, sm) };
            if *k == 3 {
                // offsets that cancel out between members
                let o = if minus { Signature::from_bytes(&(-&SignatureGroup::from_bytes(&off.to_bytes()).unwrap()).to_bytes(false)).unwrap() } else { off.clone() };
                s.combine(&[o]);
                minus = !minus;
            }
            want &= *k == 0;
            asigs.push(AggregatedSignature::from_bytes(&s.to_bytes()).unwrap());
            sigs.push(s);
            pks.push(key(x));
            apks.push(AggregatedPublicKey::new(&p));
            ms.push(MSGS[m]);
        }
        let got = guard(|| if agg {
            AggregatedSignature::batch_verify(&(0..n).map(|x| (ms[x], &asigs[x], &apks[x])).collect::<Vec<_>>(), None, &g(0))
        } else {
            Signature::batch_verify(&(0..n).map(|x| (ms[x], &sigs[x], &pks[x])).collect::<Vec<_>>(), None, &g(0))
        });
        yes(c, got, want, "batch", || format!("members {:?} aggregated {} same message {}", kinds, agg, same))?;
        c.outcome(if want { "accepted" } else { "refused" });
        Ok(())
    }
    /// Nothing is signed under the neutral element: not by any signature, not by none.
    pub fn neutral(c: &mut Ctx) -> R {
        let how = c.choose("verification", 8);
        let from = c.choose("origin", 2);
        let s0 = c.flag("neutral signature");
        c.state(&(how, from, s0));
        let (mut pb, mut sb) = (Generator::identity().to_bytes(false), SignatureGroup::identity().to_bytes(false));
        if from == 1 {
            // bytes of no point at all
            pb = key(0).to_bytes(); let n = pb.len(); pb[n - 1] ^= 1;
            sb = sig(0, 0).to_bytes(); let n = sb.len(); sb[n - 1] ^= 1;
        }
        if !s0 { sb = sig(0, 0).to_bytes() }
        let (p, s) = match (PublicKey::from_bytes(&pb), Signature::from_bytes(&sb)) { (Ok(p), Ok(s)) => (p, s), _ => { c.outcome("no such key or signature"); return Ok(()) } };
        let (ap, asg) = (AggregatedPublicKey::from_bytes(&pb).unwrap(), AggregatedSignature::from_bytes(&sb).unwrap());
        let got = guard(|| match how {
            0 => s.verify(MSGS[0], None, &p, &g(0)),
            1 => asg.verify(MSGS[0], None, &ap, &g(0)),
            2 => asg.verify_no_rk(MSGS[0], None, &[p.clone()], &g(0)),
            3 => s.verify_multi(&[(MSGS[0], &p)], None, &g(0)),
            4 => Signature::batch_verify(&[(MSGS[0], &s, &p)], None, &g(0)),
            5 => AggregatedSignature::batch_verify(&[(MSGS[0], &asg, &ap)], None, &g(0)),
            6 => ProofOfPossession::from_bytes(&sb).unwrap().verify(None, &p, &g(0)),
            _ => Bls::new().verify(MSGS[0], &sb, &UP(pb.clone())).unwrap_or(false),
        });
        yes(c, got, false, "neutral", || format!("verification {} origin {} neutral signature {}", how, from, s0))?;
        // the neutral signature under ordinary keys
        if s0 {
            let got = guard(|| match how {
                0 => s.verify(MSGS[0], None, &key(0), &g(0)),
                1 => asg.verify(MSGS[0], None, &AggregatedPublicKey::new(&[key(0)]), &g(0)),
                2 => asg.verify_no_rk(MSGS[0], None, &[key(0)], &g(0)),
                3 => s.verify_multi(&[(MSGS[0], &key(0))], None, &g(0)),
                4 => Signature::batch_verify(&[(MSGS[0], &s, &key(0))], None, &g(0)),
                5 => AggregatedSignature::batch_verify(&[(MSGS[0], &asg, &AggregatedPublicKey::new(&[key(0)]))], None, &g(0)),
                6 => ProofOfPossession::from_bytes(&sb).unwrap().verify(None, &key(0), &g(0)),
                _ => asg.verify(MSGS[0], None, &AggregatedPublicKey::new(&[]), &g(0)) || asg.verify_no_rk(MSGS[0], None, &[], &g(0)) || s.verify_multi(&[], None, &g(0)),
            });
            yes(c, got, false, "neutral", || format!("the neutral signature under verification {}", how))?;
            // the neutral signature under keys that cancel
            let minus = |i: usize| -> PublicKey { let p = Generator::from_bytes(&key(i).to_bytes()).unwrap(); PublicKey::from_bytes(&(-&p).to_bytes(false)).unwrap() };
            for l in vec![vec![key(0), minus(0)], vec![minus(1), key(1)], vec![key(0), key(1), minus(0), minus(1)], vec![p.clone(), p.clone()], vec![p.clone(), p.clone(), p.clone()]] {
                let mut sum = l[0].clone();
                sum.combine(&l[1..]);
                let got = guard(|| match how {
                    0 => s.verify(MSGS[0], None, &sum, &g(0)),
                    1 => asg.verify(MSGS[0], None, &AggregatedPublicKey::from_bytes(&sum.to_bytes()).unwrap(), &g(0)),
                    2 => asg.verify_no_rk(MSGS[0], None, &l, &g(0)),
                    3 => s.verify_multi(&l.iter().map(|k| (MSGS[0], k)).collect::<Vec<_>>(), None, &g(0)),
                    4 => Signature::batch_verify(&l.iter().map(|k| (MSGS[0], &s, k)).collect::<Vec<_>>(), None, &g(0)),
                    5 => { let a: Vec<_> = l.iter().map(|k| AggregatedPublicKey::new(&[k.clone()])).collect(); AggregatedSignature::batch_verify(&a.iter().map(|k| (MSGS[0], &asg, k)).collect::<Vec<_>>(), None, &g(0)) }
                    6 => ProofOfPossession::from_bytes(&sb).unwrap().verify(None, &sum, &g(0)),
                    _ => Bls::new().verify(MSGS[0], &sb, &UP(sum.to_bytes())).unwrap_or(false),
                });
                yes(c, got, false, "neutral", || format!("the neutral signature under {} keys that cancel, verification {}", l.len(), how))?;
            }
        }
        c.outcome("refused");
        Ok(())
    }
    /// Altered bytes never verify, and no bytes make anything panic.
    pub fn alter(c: &mut Ctx) -> R {
        let part = c.choose("altered", 2);
        let kind = c.choose("alteration", 2);
        let block = c.choose("block", 16);
        c.state(&(part, kind, block));
        let b = Bls::new();
        let (p, s) = (key(1).to_bytes(), sig(1, 0).to_bytes());
        let orig = if part == 0 { &p } else { &s };
        let mut all = vec![];
        if kind == 0 {
            for x in 0..orig.len() * 8 { if x % 16 == block { all.push(flip(orig, x)) } }
        } else {
            for l in 0..260 { if l != orig.len() && l % 16 == block { let mut x = orig.clone(); x.resize(l, 0); all.push(x) } }
        }
        for x in all {
            // another encoding of the same element is no alteration
            let same = guard(|| if part == 0 { PublicKey::from_bytes(&x).map(|y| y.to_bytes() == p) } else { Signature::from_bytes(&x).map(|y| y.to_bytes() == s) }.unwrap_or(false));
            if same == Ok(true) { c.outcome("same element"); continue }
            let (p, s) = if part == 0 { (&x, &s) } else { (&p, &x) };
            yes(c, guard(|| b.verify(MSGS[0], s, &UP(p.clone())).unwrap_or(false)), false, "altered", || hexs(&x))?;
            let r = guard(|| { let _ = (AggregatedPublicKey::from_bytes(&x).is_ok(), AggregatedSignature::from_bytes(&x).is_ok(), ProofOfPossession::from_bytes(&x).is_ok()); });
            c.ensure(r.is_ok(), "altered:panic", || hexs(&x))?;
        }
        c.outcome("refused");
        Ok(())
    }
    pub fn keys(c: &mut Ctx) -> R {
        let l = c.choose("length", 100);
        c.state(&l);
        let b = Bls::new();
        let seed = bytes(l, 5);
        let k = derived(&seed);
        let r = guard(|| b.keypair(Some(KeyGenOption::UseSeed(seed.clone()))).map_err(|e| e.to_string()));
        let want = (UP(PublicKey::new(&k, &g(0)).to_bytes()), UK(k.to_bytes()));
        c.ensure(r == Ok(Ok(want)), "seed", || format!("a seed of {} bytes does not give the draft's key", l))?;
        let given = { let mut x = secret(3).to_bytes(); x.resize(l, 0); x };
        let r = guard(|| b.keypair(Some(KeyGenOption::FromSecretKey(UK(given.clone())))).ok());
        let s = guard(|| b.sign(b"m", &UK(given.clone())).is_ok());
        c.steps(3);
        if l == 48 {
            c.ensure(r == Ok(Some((UP(key(3).to_bytes()), UK(given.clone())))) && s == Ok(true), "secret", || "keys given back differ".into())?;
            let (p1, k1) = b.keypair(None).unwrap();
            let (p2, _) = b.keypair(None).unwrap();
            let sg = b.sign(b"m", &k1).unwrap();
            c.ensure(p1 != p2 && b.verify(b"m", &sg, &p1).unwrap() && !b.verify(b"m", &sg, &p2).unwrap(), "random", || "generated keys".into())?;
            let (p3, k3) = generate(&g(1));
            let (p4, _) = generate(&g(1));
            c.ensure(p3.to_bytes() != p4.to_bytes() && p3.to_bytes() == PublicKey::new(&k3, &g(1)).to_bytes(), "random", || "generated keys".into())?;
        } else {
            c.ensure(r == Ok(None) && s == Ok(false), "secret", || format!("a secret key of {} bytes: {:?} {:?}", l, r, s))?;
        }
        c.outcome("ok");
        Ok(())
    }
}}}
variant!(normal);
variant!(small);
pub fn build(_t: Tier) -> Check {
    let mut scenarios = vec![];
    macro_rules! add { ($f:ident, $bound:expr) => {
        scenarios.push(Scenario::new(concat!("normal-", stringify!($f)), $bound, normal::$f));
        scenarios.push(Scenario::new(concat!("small-", stringify!($f)), $bound, small::$f));
    } }
    add!(single, "3 signers x 3 messages x 3 contexts x 2 generators x 3 forms, each verified with up to one (all) of them different");
    add!(sums, "all sums of at most 3 (4) of 6 signatures x all lists of at most 3 keys, 2 messages; inputs of at most 2 (3)");
    add!(rogue, "all ordered groups of at most 3 x 2 messages x parts 0..2 times each (of three: once) x all other groups; cancelling keys");
    add!(many, "4 to 9 members x 4 kinds of aggregate; each left out, replaced, misplaced; each pair of messages the same");
    add!(contexts, "8 verifications x 1 to 3 (5) members x 8 contexts to sign in x 8 to verify in");
    add!(boundary, "one text of 20 bytes cut into context and message at every place x verified cut at every place");
    add!(crowd, "13 and 33 (10 to 129) members x 6 kinds of aggregate x up to 23 places left out, replaced or exchanged");
    add!(long, "messages of 32 to 65537 bytes, altered or cut at up to 19 places");
    add!(batch, "batches of at most 3 x 4 kinds of member, cancelling offsets");
    add!(neutral, "8 verifications x neutral or malformed key x signature");
    add!(alter, "every bit and every length of key and signature");
    add!(keys, "seeds and secret keys of 0..99 bytes");
    Check {
        rule: "An execution is one aggregate (or one signature) judged by every verification in the scope. A state is one combination of choices, a transition one verification.".into(),
        assumptions: vec!["signatures of distinct (signer, message) pairs are independent: a sum verifies exactly if the formal sums agree (holds up to negligible probability for the fixed keys)".into(), "pairing and groups are amcl's, outside the repository".into()],
        scenarios,
    }
}
