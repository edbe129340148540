//! S03: BLS multi-signatures over BN254 (`ursa::bls`), against formal sums of (signer, message) pairs.
use crate::s01::{bytes, flip};
use mc::*;
use std::collections::BTreeMap;
use ursa::bls::*;
use ursa::pair::{PointG1, PointG2};

const MSGS: [&[u8]; 3] = [b"first message", b"second message", b""];
fn gen(i: usize) -> Generator {
    // a generator other than the library's own choice: any point is one
    let k = SignKey::new(Some(&[i as u8; 32])).unwrap();
    let base = Generator::from_bytes(&point()).unwrap();
    Generator::from_bytes(VerKey::new(&base, &k).unwrap().as_bytes()).unwrap()
}
fn point() -> Vec<u8> {
    lazy().clone()
}
fn lazy() -> &'static Vec<u8> {
    static mut P: Option<Vec<u8>> = None;
    static ONCE: std::sync::Once = std::sync::Once::new();
    unsafe {
        ONCE.call_once(|| P = Some(PointG2::new().unwrap().to_bytes().unwrap()));
        #[allow(static_mut_refs)]
        P.as_ref().unwrap()
    }
}
fn sk(i: usize) -> SignKey { SignKey::new(Some(&bytes(32, i))).unwrap() }
fn key(i: usize, g: usize) -> VerKey { VerKey::new(&gen(g), &sk(i)).unwrap() }
fn sig(i: usize, m: usize) -> Signature { Bls::sign(MSGS[m], &sk(i)).unwrap() }
fn judge(r: Result<Result<bool, ursa::errors::UrsaCryptoError>, String>) -> Result<bool, String> { r.map(|x| x.unwrap_or(false)) }
fn yes(c: &mut Ctx, got: Result<bool, String>, want: bool, vkey: &str, what: impl FnOnce() -> String) -> R {
    c.step();
    match got {
        Ok(x) => c.ensure(x == want, vkey, || format!("{}: {} though it should be {}", what(), x, want)),
        Err(p) => violation(format!("{}:panic", vkey), format!("{}: panic: {}", what(), p)),
    }
}
macro_rules! form { ($f:expr, $t:ident, $x:expr) => { match $f {
    0 => $x,
    1 => $t::from_bytes($x.as_bytes()).map_err(|e| Violation { key: "bytes".into(), msg: e.to_string() })?,
    _ => serde_json::from_str::<$t>(&serde_json::to_string(&$x).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?,
} } }
fn single(c: &mut Ctx) -> R {
    let (i, m, f) = (c.choose("signer", 3), c.choose("message", 3), c.choose("form", 3));
    c.state(&(i, m, f));
    let k = form!(f, SignKey, sk(i));
    let s = form!(f, Signature, Bls::sign(MSGS[m], &k).unwrap());
    c.ensure(s.as_bytes() == sig(i, m).as_bytes(), "deterministic", || "another signature".into())?;
    for j in 0..3 { for m2 in 0..3 { for g1 in 0..2 { for g2 in 0..2 {
        let v = form!(f, VerKey, key(j, g1));
        let g = form!(f, Generator, gen(g2));
        yes(c, judge(guard(|| Bls::verify(&s, MSGS[m2], &v, &g))), i == j && m == m2 && g1 == g2, "verify", || format!("signer {} message {} with key {} message {} generators {} {}", i, m, j, m2, g1, g2))?;
        if m == 0 && m2 == 0 {
            let p = form!(f, ProofOfPossession, ProofOfPossession::new(&key(i, g1), &k).unwrap());
            yes(c, judge(guard(|| Bls::verify_proof_of_posession(&p, &v, &g))), i == j && g1 == g2, "pop", || format!("possession of {} for {}", i, j))?;
            // what is known of one key is no proof for its opposite
            let minus = |b: &[u8]| PointG1::from_bytes(b).unwrap().neg().unwrap().to_bytes().unwrap();
            let np = ProofOfPossession::from_bytes(&minus(p.as_bytes())).unwrap();
            let nv = VerKey::from_bytes(&PointG2::from_bytes(v.as_bytes()).unwrap().neg().unwrap().to_bytes().unwrap()).unwrap();
            for (x, y) in vec![(&np, &v), (&p, &nv), (&np, &nv)] {
                yes(c, judge(guard(|| Bls::verify_proof_of_posession(x, y, &g))), false, "pop:opposite", || format!("possession of {} for {}", i, j))?;
            }
            let s2 = Signature::from_bytes(p.as_bytes()).unwrap();
            yes(c, judge(guard(|| Bls::verify(&s2, v.as_bytes(), &v, &g))), false, "pop:signature", || "a proof of possession is a signature".into())?;
            let s3 = Bls::sign(key(i, g1).as_bytes(), &k).unwrap();
            let p3 = ProofOfPossession::from_bytes(s3.as_bytes()).unwrap();
            yes(c, judge(guard(|| Bls::verify_proof_of_posession(&p3, &v, &g))), false, "pop:signature", || "a signature is a proof of possession".into())?;
        }
        // a multi-signature of one
        let ms = form!(f, MultiSignature, MultiSignature::new(&[&s]).unwrap());
        yes(c, judge(guard(|| Bls::verify_multi_sig(&ms, MSGS[m2], &[&v], &g))), i == j && m == m2 && g1 == g2, "multi", || "of one".into())?;
    }}}}
    c.outcome("ok");
    Ok(())
}
fn sums(c: &mut Ctx) -> R {
    let all: Vec<(usize, usize)> = (0..3).flat_map(|i| (0..2).map(move |m| (i, m))).collect();
    let n = c.choose("signatures", c.q(4, 5));
    let mut v = vec![];
    let mut from = 0;
    for x in 0..n { from += c.choose(["first", "second", "third", "fourth"][x], all.len() - from); v.push(all[from]) }
    c.state(&v);
    let sigs: Vec<Signature> = v.iter().map(|(i, m)| sig(*i, *m)).collect();
    let ms = MultiSignature::new(&sigs.iter().collect::<Vec<_>>()).unwrap();
    let rev = MultiSignature::new(&sigs.iter().rev().collect::<Vec<_>>()).unwrap();
    c.ensure(ms.as_bytes() == rev.as_bytes(), "order", || "the order of the signatures matters".into())?;
    let count = |v: &[(usize, usize)]| { let mut r = BTreeMap::new(); for x in v { *r.entry(*x).or_insert(0) += 1 } r };
    let mut keys = vec![];
    let mut go = |c: &mut Ctx, keys: &Vec<usize>| -> R {
        let vks: Vec<VerKey> = keys.iter().map(|i| key(*i, 0)).collect();
        for m in 0..2 {
            let want = !keys.is_empty() && count(&v) == count(&keys.iter().map(|i| (*i, m)).collect::<Vec<_>>());
            yes(c, judge(guard(|| Bls::verify_multi_sig(&ms, MSGS[m], &vks.iter().collect::<Vec<_>>(), &gen(0)))), want, "multi", || format!("signatures {:?} keys {:?} message {}", v, keys, m))?;
        }
        Ok(())
    };
    go(c, &keys)?;
    for a in 0..3 {
        keys = vec![a]; go(c, &keys)?;
        for b in 0..3 {
            keys = vec![a, b]; go(c, &keys)?;
            for d in b..3 { keys = vec![a, b, d]; go(c, &keys)?; }
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Many signers: all of them verify; with one left out, repeated, exchanged or signing something else, none does.
fn many(c: &mut Ctx) -> R {
    let n = c.pick("signers", &[4usize, 5, 7, 8, 9, 16, 17]);
    c.state(&n);
    let sigs: Vec<Signature> = (0..n).map(|i| sig(i, 0)).collect();
    let vks: Vec<VerKey> = (0..n).map(|i| key(i, 0)).collect();
    let mut go = |c: &mut Ctx, s: Vec<&Signature>, v: Vec<&VerKey>, want: bool, what: String| -> R {
        let ms = MultiSignature::new(&s).unwrap();
        yes(c, judge(guard(|| Bls::verify_multi_sig(&ms, MSGS[0], &v, &gen(0)))), want, "many", || format!("{} signers: {}", n, what))
    };
    go(c, sigs.iter().collect(), vks.iter().collect(), true, "all".into())?;
    go(c, sigs.iter().rev().collect(), vks.iter().collect(), true, "signatures in reverse".into())?;
    go(c, sigs.iter().collect(), vks.iter().rev().collect(), true, "keys in reverse".into())?;
    let (os, ov) = (sig(0, 1), key(n, 0));
    for i in 0..n {
        let without = |x: usize| move |y: &usize| *y != x;
        go(c, (0..n).filter(without(i)).map(|x| &sigs[x]).collect(), vks.iter().collect(), false, format!("signature {} left out", i))?;
        go(c, sigs.iter().collect(), (0..n).filter(without(i)).map(|x| &vks[x]).collect(), false, format!("key {} left out", i))?;
        go(c, (0..n).map(|x| if x == i { &sigs[(i + 1) % n] } else { &sigs[x] }).collect(), vks.iter().collect(), false, format!("signature {} is the next one", i))?;
        go(c, sigs.iter().collect(), (0..n).map(|x| if x == i { &ov } else { &vks[x] }).collect(), false, format!("key {} is a stranger's", i))?;
        go(c, (0..n).map(|x| if x == i { &os } else { &sigs[x] }).collect(), vks.iter().collect(), false, format!("signature {} is on another message", i))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Long messages: only the whole of what was signed verifies.
fn long(c: &mut Ctx) -> R {
    let l = c.pick("length", &[32usize, 33, 63, 64, 65, 128, 136, 255, 256, 257, 1000, 4096, 65537]);
    c.state(&l);
    let m = bytes(l, 5);
    let s = Bls::sign(&m, &sk(0)).unwrap();
    let v = key(0, 0);
    yes(c, judge(guard(|| Bls::verify(&s, &m, &v, &gen(0)))), true, "long", || format!("{} bytes", l))?;
    for b in vec![0, 1, 31, 32, 33, 47, 48, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 65535, 65536, l - 1, l - 2, l / 2] {
        if b >= l { continue }
        let mut x = m.clone(); x[b] ^= 1;
        yes(c, judge(guard(|| Bls::verify(&s, &x, &v, &gen(0)))), false, "long", || format!("{} bytes, byte {} altered", l, b))?;
        yes(c, judge(guard(|| Bls::verify(&s, &m[..b], &v, &gen(0)))), false, "long", || format!("{} bytes, the first {}", l, b))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Keys that are the neutral element, or bytes of no point; a rogue key has no proof of possession.
fn neutral(c: &mut Ctx) -> R {
    let how = c.choose("verification", 3);
    let from = c.choose("origin", 3);
    let s0 = c.choose("signature", 3);
    c.state(&(how, from, s0));
    let mut pb = key(0, 0).as_bytes().to_vec();
    let n = pb.len();
    match from { 0 => pb = PointG2::new_inf().unwrap().to_bytes().unwrap(), 1 => pb[n - 1] ^= 1, _ => pb = vec![0; n] }
    let mut sb = sig(0, 0).as_bytes().to_vec();
    let n = sb.len();
    match s0 { 0 => sb = PointG1::new_inf().unwrap().to_bytes().unwrap(), 1 => sb[n / 4] ^= 1, _ => {} }
    let (v, s) = match (guard(|| VerKey::from_bytes(&pb)), guard(|| Signature::from_bytes(&sb))) {
        (Ok(Ok(v)), Ok(Ok(s))) => (v, s),
        (Err(p), _) | (_, Err(p)) => return violation("neutral:panic", p),
        _ => { c.outcome("no such key or signature"); return Ok(()) }
    };
    let ms = MultiSignature::from_bytes(&sb).unwrap();
    let (k0, k1) = (key(0, 0), key(1, 0));
    for vk in &[&v, &k0] {
        if s0 == 2 && vk.as_bytes() == k0.as_bytes() { continue }
        let got = judge(guard(|| match how {
            0 => Bls::verify(&s, MSGS[0], vk, &gen(0)),
            1 => Bls::verify_multi_sig(&ms, MSGS[0], &[vk], &gen(0)),
            _ => Bls::verify_proof_of_posession(&ProofOfPossession::from_bytes(&sb).unwrap(), vk, &gen(0)),
        }));
        yes(c, got, false, "neutral", || format!("verification {} key {} signature {}", how, from, s0))?;
    }
    let none = judge(guard(|| Bls::verify_multi_sig(&ms, MSGS[0], &[], &gen(0))));
    yes(c, none, false, "neutral", || "a multi-signature of nobody".into())?;
    // key of a rogue: it cancels k1
    let x = sk(5);
    let r = PointG2::from_bytes(VerKey::new(&gen(0), &x).unwrap().as_bytes()).unwrap().sub(&PointG2::from_bytes(k1.as_bytes()).unwrap()).unwrap();
    let rk = VerKey::from_bytes(&r.to_bytes().unwrap()).unwrap();
    let pop = ProofOfPossession::new(&rk, &x).unwrap();
    yes(c, judge(guard(|| Bls::verify_proof_of_posession(&pop, &rk, &gen(0)))), false, "rogue", || "the rogue key has a proof of possession".into())?;
    c.outcome("refused");
    Ok(())
}
fn alter(c: &mut Ctx) -> R {
    let part = c.choose("altered", 4);
    let kind = c.choose("alteration", 2);
    let block = c.choose("block", 16);
    c.state(&(part, kind, block));
    let pop = ProofOfPossession::new(&key(1, 0), &sk(1)).unwrap();
    let orig = match part { 0 => key(1, 0).as_bytes().to_vec(), 1 => sig(1, 0).as_bytes().to_vec(), 2 => gen(0).as_bytes().to_vec(), _ => pop.as_bytes().to_vec() };
    let mut all = vec![];
    if kind == 0 { for x in 0..orig.len() * 8 { if x % 16 == block { all.push(flip(&orig, x)) } } }
    else { for l in 0..200 { if l != orig.len() && l % 16 == block { let mut x = orig.clone(); x.resize(l, 0); all.push(x) } } }
    for x in all {
        let got = judge(guard(|| {
            Ok(match part {
                0 => { let v = VerKey::from_bytes(&x)?; Bls::verify(&sig(1, 0), MSGS[0], &v, &gen(0))? || Bls::verify_proof_of_posession(&pop, &v, &gen(0))? || Bls::verify_multi_sig(&MultiSignature::new(&[&sig(1, 0)])?, MSGS[0], &[&v], &gen(0))? }
                1 => Bls::verify(&Signature::from_bytes(&x)?, MSGS[0], &key(1, 0), &gen(0))? || Bls::verify_multi_sig(&MultiSignature::from_bytes(&x)?, MSGS[0], &[&key(1, 0)], &gen(0))?,
                2 => Bls::verify(&sig(1, 0), MSGS[0], &key(1, 0), &Generator::from_bytes(&x)?)?,
                _ => Bls::verify_proof_of_posession(&ProofOfPossession::from_bytes(&x)?, &key(1, 0), &gen(0))?,
            })
        }));
        // the same element, encoded otherwise, is no alteration
        let same = match part {
            0 | 2 => PointG2::from_bytes(&x).and_then(|p| p.to_bytes()).map(|b| b == orig).unwrap_or(false),
            _ => PointG1::from_bytes(&x).and_then(|p| p.to_bytes()).map(|b| b == orig).unwrap_or(false),
        };
        if same { c.outcome("same element"); continue }
        yes(c, got, false, "altered", || format!("part {}: {}", part, hexs(&x)))?;
    }
    c.outcome("refused");
    Ok(())
}
fn keys(c: &mut Ctx) -> R {
    let l = c.choose("length", 70);
    c.state(&l);
    let seed = bytes(l, 3);
    let r = guard(|| SignKey::new(Some(&seed)).map(|k| k.as_bytes().to_vec()).ok());
    let k = match r { Ok(k) => k, Err(p) => return violation("seed:panic", format!("seed of {} bytes: {}", l, p)) };
    c.step();
    if let Some(k) = &k {
        c.ensure(guard(|| SignKey::new(Some(&seed)).map(|k| k.as_bytes().to_vec()).ok()) == Ok(Some(k.clone())), "seed", || "not deterministic".into())?;
        for b in 0..l * 8 { if b % 8 == 4 {
            c.step();
            let o = SignKey::new(Some(&flip(&seed, b))).unwrap();
            c.ensure(o.as_bytes() != &k[..], "seed", || format!("seed of {} with bit {} flipped gives the same key", l, b))?;
        }}
    }
    c.ensure(k.is_some() || l != 32, "seed", || "a seed of 32 bytes is refused".into())?;
    let given = { let mut x = sk(1).as_bytes().to_vec(); x.resize(l, 0); x };
    let r = guard(|| SignKey::from_bytes(&given).ok().map(|k| k.as_bytes().to_vec()));
    c.ensure(r.is_ok() && (l != sk(1).as_bytes().len() || r == Ok(Some(given.clone()))), "secret", || format!("secret key of {} bytes: {:?}", l, r))?;
    c.ensure(l <= sk(1).as_bytes().len() || r == Ok(None), "secret", || format!("secret key of {} bytes accepted", l))?;
    let (a, b) = (SignKey::new(None).unwrap(), SignKey::new(None).unwrap());
    c.ensure(a.as_bytes() != b.as_bytes() && Generator::new().unwrap().as_bytes() != Generator::new().unwrap().as_bytes(), "random", || "two random keys are equal".into())?;
    c.outcome("ok");
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    let _ = lazy();
    Check {
        rule: "An execution is one signature or sum of signatures judged by every verification in the scope. A state is one combination of choices, a transition one verification.".into(),
        assumptions: vec!["signatures of distinct (signer, message) pairs are independent: a sum verifies exactly if the formal sums agree".into(), "curve and pairing are amcl's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("single", "3 signers x 3 messages x 3 forms x 3 keys x 3 messages x 2 x 2 generators, possession, multi-signature of one", single),
            Scenario::new("sums", "all sums of at most 3 (4) of 6 signatures x lists of at most 3 keys x 2 messages", sums),
            Scenario::new("many", "4 to 17 signers; each left out, repeated, replaced or on another message", many),
            Scenario::new("long", "messages of 32 to 65537 bytes, altered or cut at up to 23 places", long),
            Scenario::new("neutral", "3 verifications x neutral, malformed or zero key x signature; nobody; a rogue key", neutral),
            Scenario::new("alter", "every bit and every length of key, signature, generator and proof", alter),
            Scenario::new("keys", "seeds and secret keys of 0..69 bytes", keys),
        ],
    }
}
