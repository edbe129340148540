//! Z04: Groth signatures and chains of delegations made of them.
use crate::util::*;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use amcl_wrapper::group_elem_g2::{G2Vector, G2};
use mc::*;
use std::sync::Arc;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

/// Setup parameters; 1 has another label.
pub fn params(which: usize, n: usize) -> Arc<(Groth1SetupParams, Groth2SetupParams)> {
    static C: Memo<(usize, usize), (Groth1SetupParams, Groth2SetupParams)> = Memo::new();
    C.of(&(which, n), || { let l: &[u8] = if which == 0 { b"test" } else { b"other" }; (GrothS1::setup(n, l), GrothS2::setup(n, l)) })
}
pub fn a1(i: usize) -> G1 { static C: Memo<usize, G1> = Memo::new(); (*C.of(&i, || G1::from_msg_hash(format!("attribute {}", i).as_bytes()))).clone() }
pub fn a2(i: usize) -> G2 { static C: Memo<usize, G2> = Memo::new(); (*C.of(&i, || G2::from_msg_hash(format!("attribute {}", i).as_bytes()))).clone() }

macro_rules! groth {
    ($m:ident, $sig:ident, $params:ident, $vk:ident, $gs:ident, $mg:ident, $kg:ident, $mv:ident, $mgen:ident, $kgen:ident, $which:tt, $attr:ident) => {
        mod $m {
            use super::*;
            fn two(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, s: &$sig, m: &[$mg], vk: &$vk, p: &$params) -> R {
                expect(c, want, key, || format!("{} (one by one)", what()), || s.verify(m, vk, p).map_err(|e| e.to_string()))?;
                expect(c, want, key, || format!("{} (batch)", what()), || s.verify_batch(m, vk, p).map_err(|e| e.to_string()))
            }
            /// The equations, with everything given by small exponents.
            pub fn exact(c: &mut Ctx) -> R {
                let n = c.choose("messages", 3);
                let p = &super::params(0, 1).$which;
                let (mg, kg) = (&p.$mgen, &p.$kgen);
                let v = c.pick("key", &[0i64, 1, -2]);
                let y: Vec<i64> = (0..n.max(1)).map(|_| c.pick("y", &[0i64, 1, 2])).collect();
                let r = c.pick("r", &[0i64, 1, -1]);
                c.state(&(n, v, &y, r));
                let q = $params { g1: p.g1.clone(), g2: p.g2.clone(), y: y.iter().map(|y| mg * &f(*y)).collect::<Vec<_>>().into() };
                let vk = $vk(kg * &f(v));
                let dom = [0i64, 1];
                for k in 0..dom.len().pow(n as u32) {
                    let m: Vec<i64> = (0..n).map(|i| dom[k / dom.len().pow(i as u32) % dom.len()]).collect();
                    // r is its own inverse where it has one
                    let s = r * (y[0] + v);
                    let t: Vec<i64> = (0..n).map(|i| r * (m[i] + y[i] * v)).collect();
                    for d in 0..n + 3 {
                        let (mut s, mut t) = (s, t.clone());
                        match d { 0 => (), 1 => s += 1, 2 => s = -s, d => t[d - 3] += 1 }
                        let want = s * r == y[0] + v && (0..n).all(|i| t[i] * r == m[i] + y[i] * v);
                        let sig = $sig { R: kg * &f(r), S: mg * &f(s), T: t.iter().map(|t| mg * &f(*t)).collect::<Vec<_>>().into() };
                        let ms: Vec<$mg> = m.iter().map(|m| mg * &f(*m)).collect();
                        two(c, want, "verify", || format!("key {} y {:?} r {} s {} t {:?} m {:?}", v, y, r, s, t, m), &sig, &ms, &vk, &q)?;
                    }
                }
                Ok(())
            }
            pub fn sign(c: &mut Ctx) -> R {
                let max = c.choose("supported", c.q(4, 5));
                let n = c.choose("messages", c.q(5, 6));
                let equal = c.flag("equal");
                c.state(&(max, n, equal));
                let ps = super::params(0, max);
                let p = &ps.$which;
                let (sk, vk) = $gs::keygen(p);
                let (sk2, vk2) = $gs::keygen(p);
                c.ensure(vk.0 == &p.$kgen * &sk && sk != sk2, "keygen", || "keys".into())?;
                let ms: Vec<$mg> = (0..n).map(|i| $attr(if equal { 0 } else { i })).collect();
                let r = verdict(c, "sign:count", || format!("{} messages of {}", n, max), || $sig::new(&ms, &sk, p))?;
                c.ensure(r.is_some() == (n <= max && max > 0), "sign:count", || format!("{} messages of {}", n, max))?;
                let some = if max > 0 { $sig::new(&ms[..n.min(max)], &sk, p).unwrap() } else {
                    let one = super::params(0, 1);
                    $sig::new(&[], &sk, &one.$which).unwrap()
                };
                let s = match r {
                    None => {
                        // the verifier with too many messages, and with parameters for none
                        two(c, false, "count", || format!("{} messages of {}", n, max), &some, &ms, &vk, p)?;
                        c.outcome("refused");
                        return Ok(());
                    }
                    Some(s) => s,
                };
                two(c, true, "honest", || format!("{} of {}", n, max), &s, &ms, &vk, p)?;
                let again = $sig::new(&ms, &sk, p).unwrap();
                c.ensure(s.R != again.R && s.S != again.S, "fresh", || "two signatures are equal".into())?;
                two(c, false, "key", || "another key".into(), &s, &ms, &vk2, p)?;
                let q = super::params(1, max);
                two(c, false, "params", || "other parameters".into(), &s, &ms, &vk, &q.$which)?;
                for i in 0..n {
                    for x in vec![$attr(9), $mg::identity(), -&ms[i], &ms[i] + &ms[i]] {
                        let mut m = ms.clone();
                        m[i] = x;
                        two(c, false, "message", || format!("message {}", i), &s, &m, &vk, p)?;
                    }
                    for j in 0..i {
                        if ms[i] == ms[j] { continue }
                        let mut m = ms.clone();
                        m.swap(i, j);
                        two(c, false, "order", || format!("messages {} and {} swapped", i, j), &s, &m, &vk, p)?;
                    }
                }
                for k in 1..4 {
                    let mut m = ms.clone();
                    for i in 0..k { m.push($attr(i)) }
                    two(c, false, "count", || format!("{} messages more", k), &s, &m, &vk, p)?;
                }
                // parts of the signature replaced, by themselves and those of the other signature
                let mut alt: Vec<(String, $sig)> = vec![];
                for (w, x) in vec![("identity", $kg::identity()), ("negated", -&s.R), ("doubled", &s.R + &s.R), ("of another", again.R.clone())] { alt.push((format!("R {}", w), $sig { R: x, ..s.clone() })) }
                for (w, x) in vec![("identity", $mg::identity()), ("negated", -&s.S), ("doubled", &s.S + &s.S), ("of another", again.S.clone())] { alt.push((format!("S {}", w), $sig { S: x, ..s.clone() })) }
                for i in 0..n {
                    for (w, x) in vec![("identity", $mg::identity()), ("negated", -&s.T[i]), ("doubled", &s.T[i] + &s.T[i]), ("of another", again.T[i].clone())] {
                        let mut t = s.T.as_slice().to_vec();
                        t[i] = x;
                        alt.push((format!("T {} {}", i, w), $sig { T: t.into(), ..s.clone() }));
                    }
                    for j in 0..i {
                        // errors in two equations that cancel
                        let mut t = s.T.as_slice().to_vec();
                        t[i] += $attr(7);
                        t[j] -= $attr(7);
                        alt.push((format!("T {} and {} moved", i, j), $sig { T: t.into(), ..s.clone() }));
                    }
                    for back in vec![false, true] {
                        let mut t = s.T.as_slice().to_vec();
                        if back { t[i] += $attr(7) } else { t[i] -= $attr(7) }
                        alt.push((format!("S and T {} moved", i), $sig { S: &s.S + &$attr(7), T: t.into(), ..s.clone() }));
                    }
                    alt.push((format!("only {} T", i), $sig { T: s.T.as_slice()[..i].to_vec().into(), ..s.clone() }));
                }
                alt.push(("all identities".into(), $sig { R: $kg::identity(), S: $mg::identity(), T: vec![$mg::identity(); n].into() }));
                for (w, a) in &alt { two(c, false, "altered", || w.clone(), a, &ms, &vk, p)? }
                for t in vec![f(1), f(-1), f(5), val(9)] {
                    let z = s.randomize(&t);
                    two(c, true, "randomized", || name(&t), &z, &ms, &vk, p)?;
                    c.ensure((z.R == s.R && z.S == s.S) == (t == f(1)), "randomized", || format!("by {}", name(&t)))?;
                }
                // knowledge of the signing key
                let com = $vk::initiate_proof_of_knowledge_of_sigkey(p);
                let x = com.gen_challenge(vec![]);
                let pr = $vk::finish_proof_of_knowledge_of_sigkey(com.clone(), sk.clone(), &x);
                let bad = $vk::finish_proof_of_knowledge_of_sigkey(com, sk2, &x);
                for (want, pr, vk, x) in vec![(true, &pr, &vk, &x), (false, &pr, &vk2, &x), (false, &bad, &vk, &x), (true, &bad, &vk2, &x), (false, &pr, &vk, &f(3))] {
                    expect(c, want, "sigkey", || "knowledge of the signing key".into(), || $vk::verify_proof_of_knowledge_of_sigkey(pr, vk, p, x).map_err(|e| e.to_string()))?;
                }
                let back: $sig = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
                two(c, true, "json", || "after a round trip".into(), &back, &ms, &vk, p)?;
                let _: $mv = back.T;
                c.outcome("signed");
                Ok(())
            }
        }
    };
}
groth!(groth1, Groth1Sig, Groth1SetupParams, Groth1Verkey, GrothS1, G1, G2, G1Vector, g1, g2, 0, a1);
groth!(groth2, Groth2Sig, Groth2SetupParams, Groth2Verkey, GrothS2, G2, G1, G2Vector, g2, g1, 1, a2);

/// A chain of delegations with the keys of its members; key 0 is the root's.
#[derive(Clone)]
pub struct Chain { pub sk: Vec<F>, pub even: Vec<EvenLevelVerkey>, pub odd: Vec<OddLevelVerkey>, pub chain: CredChain }
/// Chain `which` with `shape[i]` attributes in link i+1.
pub fn chain(which: usize, max: usize, shape: &[usize]) -> Arc<Chain> {
    static C: Memo<(usize, usize, Vec<usize>), Chain> = Memo::new();
    C.of(&(which, max, shape.to_vec()), || {
        let p = params(0, max);
        let mut x = Chain { sk: vec![], even: vec![], odd: vec![], chain: CredChain::new() };
        for i in 0..=shape.len() {
            if i % 2 == 0 { let (s, v) = EvenLevelIssuer::keygen(&p.0); x.sk.push(s); x.even.push(v) } else { let (s, v) = OddLevelIssuer::keygen(&p.1); x.sk.push(s); x.odd.push(v) }
        }
        for (i, n) in shape.iter().enumerate() {
            let at = 10 * which + 3 * i;
            if i % 2 == 0 {
                let at: G1Vector = (0..*n).map(|j| a1(at + j)).collect::<Vec<_>>().into();
                let l = if i == 0 { RootIssuer::delegate(at, x.odd[0].clone(), &x.sk[0], &p.0) } else { EvenLevelIssuer::new(i).unwrap().delegate(at, x.odd[i / 2].clone(), &x.sk[i], &p.0) };
                x.chain.extend_with_odd(l.unwrap()).unwrap();
            } else {
                let at: G2Vector = (0..*n).map(|j| a2(at + j)).collect::<Vec<_>>().into();
                x.chain.extend_with_even(OddLevelIssuer::new(i).unwrap().delegate(at, x.even[i / 2 + 1].clone(), &x.sk[i], &p.1).unwrap()).unwrap();
            }
        }
        x
    })
}
fn judge(c: &mut Ctx, want: bool, key: &str, what: impl Fn() -> String, ch: &CredChain, even: &[EvenLevelVerkey], odd: &[OddLevelVerkey], p: &(Groth1SetupParams, Groth2SetupParams)) -> R {
    expect(c, want, key, || format!("{} (one by one)", what()), || ch.verify_delegations(even.iter().collect(), odd.iter().collect(), &p.0, &p.1).map_err(|e| e.to_string()))?;
    expect(c, want, key, || format!("{} (batch)", what()), || ch.verify_delegations_batched(even.iter().collect(), odd.iter().collect(), &p.0, &p.1).map_err(|e| e.to_string()))
}
/// The chain signed anew with chosen randomness, each equation of its verification off by the given
/// exponent: link, equation (0 for S, then those of T), error.
fn crafted(x: &Chain, p: &(Groth1SetupParams, Groth2SetupParams), errors: &[(usize, usize, F)]) -> CredChain {
    let mut ch = x.chain.clone();
    for i in 0..x.chain.size() {
        let off = |e: usize| errors.iter().filter(|x| x.0 == i && x.1 == e).fold(f(0), |a, x| a + &x.2);
        let rho = val(40 + i);
        let inv = rho.inverse();
        macro_rules! sign {
            ($link:expr, $p:expr, $gr:ident, $gs:ident) => {{
                let l = $link;
                l.signature.R = &$p.$gr * &rho;
                l.signature.S = (&$p.y[0] + (&$p.$gs * (&x.sk[i] + &off(0)))) * &inv;
                for j in 0..l.attributes.len() { l.signature.T[j] = (&l.attributes[j] + (&$p.y[j] * &x.sk[i]) + (&$p.$gs * &off(j + 1))) * &inv }
            }};
        }
        if i % 2 == 0 { sign!(&mut ch.odd_links[i / 2], p.0, g2, g1) } else { sign!(&mut ch.even_links[i / 2], p.1, g1, g2) }
    }
    ch
}
/// Errors in two equations of a chain, of the same link or of two: however they are related, the batch
/// finds what checking the links one by one does.
fn cancelling(c: &mut Ctx) -> R {
    let shape: Vec<usize> = c.pick("attributes", &[vec![2usize], vec![0, 0], vec![2, 1], vec![1, 0, 2], vec![0, 1, 0, 1]]);
    let p = params(0, 3);
    let x = chain(0, 3, &shape);
    let eqs: Vec<(usize, usize)> = (0..shape.len()).flat_map(|i| (0..shape[i] + 2).map(move |e| (i, e))).collect();
    let a = c.choose("first", eqs.len());
    let same = c.flag("same sign");
    c.state(&(&shape, a, same));
    let go = |c: &mut Ctx, want: bool, what: &dyn Fn() -> String, ch: &CredChain| judge(c, want, "cancelling", what, ch, &x.even, &x.odd, &p);
    if a == 0 { go(c, true, &|| format!("attributes {:?} signed anew", shape), &crafted(&x, &p, &[]))? }
    let (d, nd) = (val(50), -&val(50));
    for b in 0..a {
        let ch = crafted(&x, &p, &[(eqs[a].0, eqs[a].1, d.clone()), (eqs[b].0, eqs[b].1, if same { d.clone() } else { nd.clone() })]);
        go(c, false, &|| format!("attributes {:?}: equations {:?} and {:?} off by {} errors", shape, eqs[a], eqs[b], if same { "the same" } else { "opposite" }), &ch)?;
    }
    go(c, false, &|| format!("attributes {:?}: equation {:?} off", shape, eqs[a]), &crafted(&x, &p, &[(eqs[a].0, eqs[a].1, d.clone())]))?;
    c.outcome("ok");
    Ok(())
}
/// A link delegates to the last of its attributes, if its delegator signed them so, and to no other.
fn place(c: &mut Ctx) -> R {
    let shape: Vec<usize> = c.pick("attributes", &[vec![2usize], vec![1, 2], vec![0, 1, 2], vec![2, 0], vec![1, 1, 1]]);
    let p = params(0, 4);
    let x = chain(0, 4, &shape);
    let i = c.choose("link", shape.len());
    c.state(&(&shape, i));
    let n = shape[i] + 1;
    // every arrangement of the key, the other attributes and another attribute: a list of places, n for the other
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=3 { let mut v = vec![0; l]; loop {
        lists.push(v.clone());
        let mut q = 0;
        while q < l && v[q] == n { v[q] = 0; q += 1 }
        if q == l { break }
        v[q] += 1;
    } }
    for l in lists {
        let mut y = (*x).clone();
        macro_rules! put { ($link:expr, $other:expr, $vk:expr) => {{
            let k = $link;
            let at: Vec<_> = k.attributes.as_slice().to_vec();
            let new: Vec<_> = l.iter().map(|j| if *j == n { $other } else { at[*j].clone() }).collect();
            k.signature.T = new.clone().into();
            k.attributes = new.into();
            c.ensure(k.has_verkey($vk) == (l.last() == Some(&(n - 1))), "place", || format!("attributes {:?} of link {}: has_verkey", l, i + 1))?;
        }} }
        if i % 2 == 0 { put!(&mut y.chain.odd_links[i / 2], a1(97), &x.odd[i / 2]) } else { put!(&mut y.chain.even_links[i / 2], a2(97), &x.even[i / 2 + 1]) }
        let ch = crafted(&y, &p, &[]);
        judge(c, l.last() == Some(&(n - 1)), "place", || format!("attributes {:?} of link {} of {} signed by its delegator, the key being {}", l, i + 1, shape.len(), n - 1), &ch, &x.even, &x.odd, &p)?;
    }
    c.outcome("ok");
    Ok(())
}
/// Longer chains: every link counts, and every truncation is what its links make it.
fn deep(c: &mut Ctx) -> R {
    let len = c.pick("links", if c.thorough() { &[6usize, 7, 8, 9, 12, 17] } else { &[6usize, 7, 9] });
    let full = c.flag("attributes");
    c.state(&(len, full));
    let shape: Vec<usize> = (0..len).map(|i| if full { i % 2 } else { 0 }).collect();
    let p = params(0, 3);
    let (x, z) = (chain(0, 3, &shape), chain(1, 3, &shape));
    judge(c, true, "deep", || format!("{} links", len), &x.chain, &x.even, &x.odd, &p)?;
    for k in 0..len + 2 {
        let t = verdict(c, "deep", || format!("first {} of {}", k, len), || x.chain.get_truncated(k).map_err(|e| e.to_string()))?;
        c.ensure(t.is_some() == (k <= len), "deep", || format!("first {} of {}", k, len))?;
        let t = match t { Some(t) => t, None => continue };
        let lv: Vec<usize> = (0..t.size()).map(|j| if j % 2 == 0 { t.odd_links[j / 2].level } else { t.even_links[j / 2].level }).collect();
        c.same(lv, (1..=k).collect::<Vec<_>>(), "deep", "levels of the truncated chain")?;
        if k > 0 { judge(c, true, "deep", || format!("first {} of {}", k, len), &t, &x.even[..k / 2 + 1], &x.odd[..(k + 1) / 2], &p)? }
    }
    for i in 0..len {
        let (mut a, mut b, mut d) = (x.chain.clone(), x.chain.clone(), x.chain.clone());
        if i % 2 == 0 {
            a.odd_links[i / 2].signature = z.chain.odd_links[i / 2].signature.clone();
            b.odd_links[i / 2] = z.chain.odd_links[i / 2].clone();
            d.odd_links[i / 2].level += 2;
        } else {
            a.even_links[i / 2].signature = z.chain.even_links[i / 2].signature.clone();
            b.even_links[i / 2] = z.chain.even_links[i / 2].clone();
            d.even_links[i / 2].level += 2;
        }
        for (w, ch) in vec![("signature of another", a), ("link of another", b), ("level", d)] {
            judge(c, false, "deep", || format!("{} links, link {}: {}", len, i + 1, w), &ch, &x.even, &x.odd, &p)?;
        }
    }
    for i in 0..=len {
        let (mut e, mut o) = (x.even.clone(), x.odd.clone());
        if i % 2 == 0 { e[i / 2] = z.even[i / 2].clone() } else { o[i / 2] = z.odd[i / 2].clone() }
        judge(c, false, "deep", || format!("{} links, key {} of another", len, i), &x.chain, &e, &o, &p)?;
    }
    c.outcome("ok");
    Ok(())
}
/// Parameters depend on every byte of their label and on nothing else, and no two of their elements are
/// equal.
fn setup(c: &mut Ctx) -> R {
    let l = c.pick("label", &[0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 65537]);
    let n = c.pick("messages", &[0usize, 1, 2, 11, 40]);
    c.state(&(l, n));
    let label: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
    let (p, q) = (GrothS1::setup(n, &label), GrothS2::setup(n, &label));
    c.same((p.y.len(), q.y.len()), (n, n), "setup:count", "elements")?;
    let all1 = |p: &Groth1SetupParams| -> Vec<String> { let mut v: Vec<String> = p.y.iter().map(|y| y.to_hex()).collect(); v.push(p.g1.to_hex()); v };
    let all2 = |p: &Groth2SetupParams| -> Vec<String> { let mut v: Vec<String> = p.y.iter().map(|y| y.to_hex()).collect(); v.push(p.g2.to_hex()); v };
    let (a, b) = (all1(&p), all2(&q));
    for v in vec![&a, &b] {
        let mut w = v.clone();
        w.sort();
        w.dedup();
        c.ensure(w.len() == v.len(), "setup:equal", || format!("two of {} elements are equal", v.len()))?;
    }
    c.ensure(!p.g1.is_identity() && !p.g2.is_identity() && !q.g1.is_identity() && !q.g2.is_identity() && p.y.iter().all(|y| !y.is_identity()) && q.y.iter().all(|y| !y.is_identity()), "setup:identity", || "a neutral element".into())?;
    let (p2, q2) = (GrothS1::setup(n, &label), GrothS2::setup(n, &label));
    c.ensure(all1(&p2) == a && all2(&q2) == b && p2.g2 == p.g2 && q2.g1 == q.g1, "setup:again", || "another result".into())?;
    let mut others: Vec<Vec<u8>> = vec![[&label[..], &[0]].concat(), [&label[..], b" "].concat(), [&label[..], b"0"].concat()];
    for i in vec![0, l / 2, l.saturating_sub(1)] {
        if l == 0 { break }
        let mut x = label.clone();
        x[i] ^= 0x80;
        others.push(x);
        others.push(label[..i].to_vec());
    }
    for o in others {
        let (x, y) = (GrothS1::setup(n, &o), GrothS2::setup(n, &o));
        c.ensure(all1(&x).iter().all(|e| !a.contains(e)) && all2(&y).iter().all(|e| !b.contains(e)) && x.g2 != p.g2 && y.g1 != q.g1, "setup:label", || format!("labels of {} and {} bytes share an element", l, o.len()))?;
    }
    c.outcome("ok");
    Ok(())
}
fn chains(c: &mut Ctx) -> R {
    let max = 3;
    let len = 1 + c.choose("links", c.q(4, 5));
    let shape: Vec<usize> = match c.choose("attributes", 4) { 0 => vec![2; len], 1 => vec![0; len], 2 => (0..len).map(|i| i % 3).collect(), _ => (0..len).map(|i| 2 - i % 3).collect() };
    c.state(&shape);
    let p = params(0, max);
    let (x, z) = (chain(0, max, &shape), chain(1, max, &shape));
    let go = |c: &mut Ctx, want: bool, key: &str, what: &dyn Fn() -> String, ch: &CredChain, even: &[EvenLevelVerkey], odd: &[OddLevelVerkey]| judge(c, want, key, what, ch, even, odd, &p);
    c.same((x.chain.odd_size(), x.chain.even_size(), x.chain.size()), ((len + 1) / 2, len / 2, len), "size", "sizes")?;
    go(c, true, "honest", &|| format!("{} links, attributes {:?}", len, shape), &x.chain, &x.even, &x.odd)?;
    // truncations
    for k in 0..len + 3 {
        let t = verdict(c, "truncated", || format!("{} of {}", k, len), || x.chain.get_truncated(k).map_err(|e| e.to_string()))?;
        c.ensure(t.is_some() == (k <= len), "truncated", || format!("{} of {}", k, len))?;
        if let Some(t) = t {
            c.same(t.size(), k, "truncated", "size")?;
            go(c, k > 0, "truncated", &|| format!("first {} of {}", k, len), &t, &x.even[..k / 2 + 1], &x.odd[..(k + 1) / 2])?;
            if k != len { go(c, false, "truncated:keys", &|| format!("first {} of {} with all keys", k, len), &t, &x.even, &x.odd)? }
        }
    }
    // keys
    for i in 0..=len {
        let (mut e, mut o) = (x.even.clone(), x.odd.clone());
        if i % 2 == 0 { e[i / 2] = z.even[i / 2].clone() } else { o[i / 2] = z.odd[i / 2].clone() }
        go(c, false, "key", &|| format!("key {} of another", i), &x.chain, &e, &o)?;
        let (mut e, mut o) = (x.even.clone(), x.odd.clone());
        if i % 2 == 0 { e.remove(i / 2); } else { o.remove(i / 2); }
        go(c, false, "key:count", &|| format!("without key {}", i), &x.chain, &e, &o)?;
        // one too few of one kind and one too many of the other
        if i % 2 == 0 { o.push(x.odd[0].clone()) } else { e.push(x.even[0].clone()) }
        go(c, false, "key:count", &|| format!("without key {}, with another one", i), &x.chain, &e, &o)?;
        for j in 0..i {
            if i % 2 != j % 2 { continue }
            let (mut e, mut o) = (x.even.clone(), x.odd.clone());
            if i % 2 == 0 { e.swap(i / 2, j / 2) } else { o.swap(i / 2, j / 2) }
            go(c, false, "key:order", &|| format!("keys {} and {} swapped", i, j), &x.chain, &e, &o)?;
        }
    }
    let mut e = x.even.clone();
    e.push(x.even[0].clone());
    go(c, false, "key:count", &|| "one even key more".into(), &x.chain, &e, &x.odd)?;
    let mut o = x.odd.clone();
    o.push(x.odd[0].clone());
    go(c, false, "key:count", &|| "one odd key more".into(), &x.chain, &x.even, &o)?;
    go(c, false, "key:count", &|| "no keys".into(), &x.chain, &[], &[])?;
    // every part of every link
    for i in 0..len {
        let mut alt: Vec<(String, CredChain)> = vec![];
        macro_rules! link {
            ($links:ident, $k:expr, $attr:ident, $mg:ident, $kg:ident) => {{
                let k = $k;
                let l = &x.chain.$links[k];
                let mut put = |w: String, g: &dyn Fn(&mut Chain)| { let mut y = (*x).clone(); g(&mut y); alt.push((w, y.chain)) };
                put("link of another chain".into(), &|y| y.chain.$links[k] = z.chain.$links[k].clone());
                put("signature of another chain".into(), &|y| y.chain.$links[k].signature = z.chain.$links[k].signature.clone());
                put("attributes of another chain".into(), &|y| y.chain.$links[k].attributes = z.chain.$links[k].attributes.clone());
                for lv in vec![0, 1, 2, 3, 4, 5, 6, 7, usize::MAX] { if lv != i + 1 { put(format!("level {}", lv), &|y| y.chain.$links[k].level = lv) } }
                let at = l.attributes.as_slice().to_vec();
                for j in 0..at.len() {
                    for v in vec![$attr(99), $mg::identity(), -&at[j]] { let mut a = at.clone(); a[j] = v; put(format!("attribute {} replaced", j), &|y| y.chain.$links[k].attributes = a.clone().into()) }
                    let mut a = at.clone();
                    a.remove(j);
                    put(format!("attribute {} left out", j), &|y| y.chain.$links[k].attributes = a.clone().into());
                    let mut a = at.clone();
                    a.insert(j, $attr(99));
                    put(format!("attribute before {}", j), &|y| y.chain.$links[k].attributes = a.clone().into());
                    for m in 0..j { let mut a = at.clone(); a.swap(j, m); put(format!("attributes {} and {} swapped", j, m), &|y| y.chain.$links[k].attributes = a.clone().into()) }
                    put(format!("only {} elements signed", j), &|y| { let t = &mut y.chain.$links[k].signature.T; *t = t.as_slice()[..j].to_vec().into() });
                    put(format!("T {} replaced", j), &|y| y.chain.$links[k].signature.T[j] = $attr(98));
                }
                put("no attributes".into(), &|y| y.chain.$links[k].attributes = vec![].into());
                let mut a = at.clone();
                a.push(at[at.len() - 1].clone());
                put("the key twice".into(), &|y| y.chain.$links[k].attributes = a.clone().into());
                put("R identity".into(), &|y| y.chain.$links[k].signature.R = $kg::identity());
                put("S identity".into(), &|y| y.chain.$links[k].signature.S = $mg::identity());
                put("S negated".into(), &|y| y.chain.$links[k].signature.S = -&l.signature.S);
                put("link left out".into(), &|y| { y.chain.$links.remove(k); });
                put("link twice".into(), &|y| { let l = y.chain.$links[k].clone(); y.chain.$links.insert(k, l) });
                for m in 0..k { put(format!("links {} and {} swapped", k, m), &|y| y.chain.$links.swap(k, m)) }
            }};
        }
        if i % 2 == 0 { link!(odd_links, i / 2, a1, G1, G2) } else { link!(even_links, i / 2, a2, G2, G1) }
        for (w, ch) in &alt {
            go(c, false, "altered", &|| format!("link {}: {}", i + 1, w), ch, &x.even, &x.odd)?;
            if ch.size() != len {
                let s = ch.size();
                for (e, o) in vec![(&x.even[..(s / 2 + 1).min(x.even.len())], &x.odd[..]), (&x.even[..], &x.odd[..((s + 1) / 2).min(x.odd.len())]), (&x.even[..(s / 2 + 1).min(x.even.len())], &x.odd[..((s + 1) / 2).min(x.odd.len())])] {
                    // without its last link it is the chain of the one before
                    let want = i + 1 == len && len > 1 && w == "link left out" && e.len() == s / 2 + 1 && o.len() == (s + 1) / 2;
                    go(c, want, "altered", &|| format!("link {}: {}, other keys", i + 1, w), ch, e, o)?;
                }
                for k in 0..ch.size() + 2 {
                    verdict(c, "truncated", || format!("link {}: {}, truncated to {}", i + 1, w, k), || ch.get_truncated(k).map_err(|e| e.to_string()))?;
                }
            }
        }
    }
    // only even links, only odd links
    for (w, ch) in vec![("only even", CredChain { odd_links: vec![], even_links: x.chain.even_links.clone() }), ("only odd", CredChain { odd_links: x.chain.odd_links.clone(), even_links: vec![] }), ("none", CredChain::new())] {
        if ch.size() == len { continue }
        let s = ch.size();
        for (e, o) in vec![(&x.even[..], &x.odd[..]), (&x.even[..(s / 2 + 1).min(x.even.len())], &x.odd[..((s + 1) / 2).min(x.odd.len())])] {
            if s == 1 && ch.odd_size() == 1 && o.len() == 1 && e.len() == 1 { continue }
            go(c, false, "unbalanced", &|| w.into(), &ch, e, o)?;
        }
        for k in 0..s + 2 { verdict(c, "truncated", || format!("{}, truncated to {}", w, k), || ch.get_truncated(k).map_err(|e| e.to_string()))?; }
    }
    // the last delegation by itself
    let (lo, le) = (x.chain.odd_size(), x.chain.even_size());
    for (want, a, b) in vec![(true, x.odd[lo - 1].clone(), x.even[lo - 1].clone()), (false, z.odd[lo - 1].clone(), x.even[lo - 1].clone()), (false, x.odd[lo - 1].clone(), z.even[lo - 1].clone())] {
        expect(c, want, "last", || "last odd delegation".into(), || x.chain.verify_last_odd_delegation(&a, &b, &p.0).map_err(|e| e.to_string()))?;
    }
    let (a, b) = (&x.even[le.min(x.even.len() - 1)], &x.odd[le.max(1) - 1]);
    expect(c, le > 0, "last", || "last even delegation".into(), || x.chain.verify_last_even_delegation(a, b, &p.1).map_err(|e| e.to_string()))?;
    expect(c, false, "last", || "last even delegation, another key".into(), || x.chain.verify_last_even_delegation(&z.even[0], b, &p.1).map_err(|e| e.to_string()))?;
    expect(c, false, "last", || "last odd delegation of none".into(), || CredChain::new().verify_last_odd_delegation(&x.odd[0], &x.even[0], &p.0).map_err(|e| e.to_string()))?;
    let q = params(1, max);
    judge(c, false, "params", || "other parameters".into(), &x.chain, &x.even, &x.odd, &q)?;
    for m in 0..3 {
        let q = params(0, m);
        let fits = shape.iter().all(|s| s + 1 <= m);
        judge(c, fits, "params", || format!("parameters for {} attributes", m), &x.chain, &x.even, &x.odd, &q)?;
    }
    let back: CredChain = serde_json::from_str(&serde_json::to_string(&x.chain).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
    go(c, true, "json", &|| "after a round trip".into(), &back, &x.even, &x.odd)?;
    c.outcome(format!("{} links", len));
    Ok(())
}
/// Every sequence of extensions, against a model that only keeps the levels.
fn extend(c: &mut Ctx) -> R {
    let max = 3;
    let x = chain(0, max, &[1, 1]);
    let (o, e) = (x.chain.odd_links[0].clone(), x.chain.even_links[0].clone());
    let mut ch = CredChain::new();
    let (mut odd, mut even): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let levels = [0usize, 1, 2, 3, 4, 5, usize::MAX - 1, usize::MAX];
    for _ in 0..c.q(4, 5) {
        let is_odd = c.flag("odd");
        let l = c.pick("level", &levels);
        let list = if is_odd { &mut odd } else { &mut even };
        let want = l == list.last().map(|x| x + 2).unwrap_or(if is_odd { 1 } else { 2 });
        let r = verdict(c, "extend", || format!("{} link of level {}", if is_odd { "odd" } else { "even" }, l), || {
            if is_odd { ch.extend_with_odd(CredLinkOdd { level: l, ..o.clone() }) } else { ch.extend_with_even(CredLinkEven { level: l, ..e.clone() }) }.map_err(|e| e.to_string())
        })?;
        if want { list.push(l) }
        c.ensure(r.is_some() == want, "extend", || format!("{} link of level {}: {}", if is_odd { "odd" } else { "even" }, l, if r.is_some() { "accepted" } else { "refused" }))?;
        c.state(&(&odd, &even));
        let got = (ch.odd_links.iter().map(|l| l.level).collect::<Vec<_>>(), ch.even_links.iter().map(|l| l.level).collect::<Vec<_>>());
        c.ensure(got == (odd.clone(), even.clone()), "extend", || format!("levels {:?}", got))?;
        for i in 0..4 {
            c.ensure(ch.get_odd_link(i).is_ok() == (i < odd.len()) && ch.get_even_link(i).is_ok() == (i < even.len()), "get", || format!("link {}", i))?;
        }
        if !want { return Ok(()) }
    }
    Ok(())
}
fn issue(c: &mut Ctx) -> R {
    let max = c.choose("supported", 4);
    let n = c.choose("attributes", 5);
    let level = c.choose("level", 4);
    c.state(&(max, n, level));
    let p = params(0, max);
    c.ensure(EvenLevelIssuer::new(level).is_ok() == (level % 2 == 0) && OddLevelIssuer::new(level).is_ok() == (level % 2 == 1), "level", || format!("level {}", level))?;
    let (s0, v0) = EvenLevelIssuer::keygen(&p.0);
    let (s1, v1) = OddLevelIssuer::keygen(&p.1);
    let want = n + 1 <= max;
    if level % 2 == 0 {
        let at: G1Vector = (0..n).map(a1).collect::<Vec<_>>().into();
        let l = verdict(c, "delegate", || format!("{} attributes of {}", n, max), || EvenLevelIssuer::new(level)?.delegate(at.clone(), v1.clone(), &s0, &p.0))?;
        c.ensure(l.is_some() == want, "delegate", || format!("{} attributes of {}", n, max))?;
        if let Some(l) = l {
            c.same((l.level, l.attribute_count()), (level + 1, n + 1), "delegate", "level and count")?;
            c.ensure(l.attributes.as_slice()[..n] == at.as_slice()[..] && l.has_verkey(&v1), "delegate", || "attributes".into())?;
            expect(c, true, "delegate", || "link".into(), || l.verify(&v1, &v0, &p.0).map_err(|e| e.to_string()))?;
        }
    } else {
        let at: G2Vector = (0..n).map(a2).collect::<Vec<_>>().into();
        let l = verdict(c, "delegate", || format!("{} attributes of {}", n, max), || OddLevelIssuer::new(level)?.delegate(at.clone(), v0.clone(), &s1, &p.1))?;
        c.ensure(l.is_some() == want, "delegate", || format!("{} attributes of {}", n, max))?;
        if let Some(l) = l {
            c.same((l.level, l.attribute_count()), (level + 1, n + 1), "delegate", "level and count")?;
            c.ensure(l.attributes.as_slice()[..n] == at.as_slice()[..] && l.has_verkey(&v0), "delegate", || "attributes".into())?;
            expect(c, true, "delegate", || "link".into(), || l.verify(&v0, &v1, &p.1).map_err(|e| e.to_string()))?;
        }
    }
    Ok(())
}
pub fn build(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let n = if th { 5 } else { 4 };
    Check {
        rule: "A Groth signature verifies for what was signed only, alone and in a batch; a chain of delegations verifies exactly when every link is the delegator's signature on the delegatee's key and attributes, in order".into(),
        assumptions: vec!["pairing and group arithmetic of amcl_wrapper".into(), "a signature is malleable to a prefix of its messages, as the scheme allows".into(), "the random value of a batch is not one of the few that make errors cancel".into()],
        scenarios: vec![
            Scenario::new("exact-groth1", "keys, parameters, signatures and up to 2 messages by their exponents", groth1::exact),
            Scenario::new("exact-groth2", "keys, parameters, signatures and up to 2 messages by their exponents", groth2::exact),
            Scenario::new("groth1", format!("up to {} messages, parameters for up to {}, every single alteration", n, n - 1), groth1::sign),
            Scenario::new("groth2", format!("up to {} messages, parameters for up to {}, every single alteration", n, n - 1), groth2::sign),
            Scenario::new("setup", "17 lengths of labels up to 65537 bytes, up to 40 messages: labels changed at the edges, cut, extended", setup),
            Scenario::new("chains", format!("up to {} links of up to 2 attributes, every single alteration, every truncation", n), chains),
            Scenario::new("cancelling", "5 shapes of chains of up to 4 links, every two equations off by opposite and equal errors", cancelling),
            Scenario::new("place", "5 shapes of chains of up to 3 links, each link signed for every list of up to 3 of its attributes, its key and another one", place),
            Scenario::new("deep", "chains of 6, 7 and 9 (thorough up to 17) links: every link, key and truncation", deep),
            Scenario::new("extend", format!("every sequence of up to {} extensions with links of 8 levels", n), extend),
            Scenario::new("large-groth1", "up to 33 messages (thorough 257), every place at an edge or a power of two altered", crate::large::groth1),
            Scenario::new("large-groth2", "up to 33 messages (thorough 257), every place at an edge or a power of two altered", crate::large::groth2),
            Scenario::new("issue", "up to 4 attributes, parameters for up to 3, 4 levels", issue),
        ],
    }
}
