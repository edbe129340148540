//! Z03: proofs of knowledge of the values in a vector commitment, in every group they are made for.
use crate::large::{m, places, sizes};
use crate::util::*;
use mc::*;

macro_rules! group {
    ($m:ident, $g:ty, $com:ty, $committed:ty, $proof:ty, $size:expr) => {
        mod $m {
            use super::*;
            type G = $g;
            fn base(k: i64) -> G { &G::from_msg_hash(b"a generator") * &f(k) }
            fn bases(b: &[i64]) -> Vec<G> { b.iter().map(|k| base(*k)).collect() }
            fn prove(c: &mut Ctx, gens: &[G], secrets: &[F], own: bool) -> V<(Vec<u8>, $committed, G)> {
                let mut com = <$com>::new();
                for (i, g) in gens.iter().enumerate() {
                    let b = val(30 + i);
                    let idx = com.commit(g, if own { Some(&b) } else { None });
                    c.same(idx, i, "index", "index of a commitment")?;
                    let ok = com.get_index(i).map(|(h, x)| h == g && (x == &b) == own).unwrap_or(false);
                    c.ensure(ok, "index", || format!("commitment {} is not what was committed", i))?;
                }
                for i in vec![gens.len(), gens.len() + 1, usize::MAX] {
                    makes(c, false, "index", || format!("index {} of {}", i, gens.len()), || com.get_index(i).map(|_| ()).map_err(|e| e.to_string()))?;
                }
                let t = made(c, "finish", || format!("{} generators", gens.len()), || Ok::<_, ()>(com.finish()))?;
                let mut C = G::identity();
                for (g, s) in gens.iter().zip(secrets) { C += g * s }
                Ok((t.to_bytes(), t, C))
            }
            /// The equation of a proof, with everything given by small exponents.
            pub fn exact(c: &mut Ctx) -> R {
                let n = c.choose("generators", c.q(3, 4));
                let b: Vec<i64> = (0..n).map(|_| c.pick("generator", &[0i64, 1, 2])).collect();
                let x = c.pick("challenge", &[0i64, 1, -2]);
                c.state(&(n, &b, x));
                let gens = bases(&b);
                let dom = [0i64, 1, -1];
                for k in 0..dom.len().pow(n as u32) {
                    let r: Vec<i64> = (0..n).map(|i| dom[k / dom.len().pow(i as u32) % dom.len()]).collect();
                    for cm in [0i64, 1, 3].iter() {
                        let t = b.iter().zip(&r).map(|(b, r)| b * r).sum::<i64>() + cm * x;
                        for d in [0i64, 1, -2].iter() {
                            let p = <$proof>::from_parts(base(t + d), r.iter().map(|r| f(*r)).collect::<Vec<F>>());
                            expect(c, *d == 0, "verify", || format!("generators {:?} responses {:?} commitment {} challenge {} t {}", b, r, cm, x, t + d), || p.verify(&gens, &base(*cm), &f(x)).map_err(|e| e.to_string()))?;
                        }
                    }
                }
                Ok(())
            }
            /// Many values: every place counts.
            pub fn large(c: &mut Ctx) -> R {
                let n = c.pick("values", &sizes(c));
                c.state(&n);
                let gens: Vec<G> = (0..n).map(|i| G::from_msg_hash(format!("generator {}", i).as_bytes())).collect();
                let secrets: Vec<F> = (0..n).map(m).collect();
                let (_, t, C) = prove(c, &gens, &secrets, false)?;
                let x = t.gen_challenge(C.to_bytes());
                let p = made(c, "prove", || "honest".into(), || t.clone().gen_proof(&x, &secrets).map_err(|e| e.to_string()))?;
                let q = made(c, "prove", || "again".into(), || t.clone().gen_proof(&(&x + &f(1)), &secrets).map_err(|e| e.to_string()))?;
                let judge = |c: &mut Ctx, want: bool, w: String, p: &$proof, g: &[G], C: &G| -> R {
                    expect(c, want, "large", || format!("{} of {}", w, n), || p.verify(g, C, &x).map_err(|e| e.to_string()))?;
                    expect(c, want, "large", || format!("complete proof: {} of {}", w, n), || p.verify_complete_proof(g, C, &x, b"").map_err(|e| e.to_string()))
                };
                judge(c, true, "all".into(), &p, &gens, &C)?;
                let mut seen: Vec<String> = vec![];
                for i in 0..n {
                    c.ensure(&p.responses[i] - &q.responses[i] == secrets[i], "large:secret", || format!("response {} is about another value", i))?;
                    let b = &p.responses[i] + &(&x * &secrets[i]);
                    seen.push(b.to_hex());
                    seen.push(b.negation().to_hex());
                }
                seen.sort();
                c.ensure(seen.windows(2).all(|w| w[0] != w[1]), "large:reuse", || format!("a blinding occurs twice in a proof of {} values", n))?;
                for i in places(n) {
                    let mut g = gens.clone();
                    g[i] = &g[i] + &base(3);
                    judge(c, false, format!("generator {}", i), &p, &g, &C)?;
                    let mut v = p.responses.as_slice().to_vec();
                    v[i] = &v[i] + &f(1);
                    judge(c, false, format!("response {}", i), &<$proof>::from_parts(p.commitment.clone(), v), &gens, &C)?;
                    let mut s = secrets.clone();
                    s[i] = f(7);
                    let z = made(c, "prove", || "false".into(), || t.clone().gen_proof(&x, &s).map_err(|e| e.to_string()))?;
                    judge(c, false, format!("false value {}", i), &z, &gens, &C)?;
                    if i > 0 {
                        let mut v = p.responses.as_slice().to_vec();
                        v.swap(i, i - 1);
                        judge(c, false, format!("responses {} and {} swapped", i - 1, i), &<$proof>::from_parts(p.commitment.clone(), v), &gens, &C)?;
                    }
                }
                for d in vec![1usize, 8, 16, 32, 64, 128, 256] {
                    if d > n { continue }
                    judge(c, false, format!("{} generators fewer", d), &p, &gens[..n - d], &C)?;
                    judge(c, false, format!("{} responses fewer", d), &<$proof>::from_parts(p.commitment.clone(), p.responses.as_slice()[..n - d].to_vec()), &gens, &C)?;
                    makes(c, false, "large:count", || format!("{} secrets fewer", d), || t.clone().gen_proof(&x, &secrets[..n - d]).map_err(|e| e.to_string()))?;
                }
                let bytes = p.to_bytes();
                let back = made(c, "bytes", || format!("from_bytes(to_bytes()) of {} values", n), || <$proof>::from_bytes(&bytes).map_err(|e| e.to_string()))?;
                c.ensure(back.commitment == p.commitment && back.responses.as_slice() == p.responses.as_slice(), "bytes", || format!("{} values: another proof comes back", n))?;
                c.outcome("ok");
                Ok(())
            }
            /// Every byte of a nonce and of what else goes into a challenge counts, however long it is.
            pub fn nonces(c: &mut Ctx) -> R {
                let len = c.pick("length", &[0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 65535, 65536, 65537]);
                c.state(&len);
                let nonce: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
                let gens: Vec<G> = (0..2).map(|i| G::from_msg_hash(&[i as u8])).collect();
                let secrets = vals(0, 2);
                let (_, t, C) = prove(c, &gens, &secrets, true)?;
                let with = |n: &[u8]| { let mut e = C.to_bytes(); e.extend_from_slice(n); t.gen_challenge(e) };
                let x = with(&nonce);
                let p = made(c, "prove", || "honest".into(), || t.clone().gen_proof(&x, &secrets).map_err(|e| e.to_string()))?;
                expect(c, true, "nonces", || format!("nonce of {} bytes", len), || p.verify_complete_proof(&gens, &C, &x, &nonce).map_err(|e| e.to_string()))?;
                let mut others: Vec<(String, Vec<u8>)> = vec![];
                for more in vec![&[0u8][..], &[1], &[0, 0]] { others.push((format!("{} more", more.len()), [&nonce[..], more].concat())) }
                for i in (0..len).filter(|i| len < 40 || *i < 3 || *i + 3 > len || (i & (i + 1)) == 0 || i & i.wrapping_sub(1) == 0) {
                    let mut n = nonce.clone();
                    n[i] ^= 0x80;
                    others.push((format!("byte {} changed", i), n));
                    others.push((format!("cut to {}", i), nonce[..i].to_vec()));
                }
                for (w, n) in others {
                    c.ensure(with(&n) != x, "nonces:challenge", || format!("the same for {} bytes with {}", len, w))?;
                    expect(c, false, "nonces", || format!("nonce of {} bytes, {}", len, w), || p.verify_complete_proof(&gens, &C, &x, &n).map_err(|e| e.to_string()))?;
                }
                c.outcome("ok");
                Ok(())
            }
            pub fn honest(c: &mut Ctx) -> R {
                let n = 1 + c.choose("values", c.q(3, 5));
                let pat = c.choose("pattern", 3);
                let own = c.flag("own blindings");
                let same = n > 1 && c.flag("one generator");
                c.state(&(n, pat, own, same));
                let gens: Vec<G> = (0..n).map(|i| G::from_msg_hash(&[if same { 0 } else { i as u8 }])).collect();
                let secrets = vals(pat, n);
                let nonce: &[u8] = b"a nonce";
                let (_, t, C) = prove(c, &gens, &secrets, own)?;
                let (_, t2, _) = prove(c, &gens, &secrets, own)?;
                c.ensure((t.commitment == t2.commitment) == own, "fresh", || "blindings are not fresh".into())?;
                let mut extra = C.to_bytes();
                extra.extend_from_slice(nonce);
                let x = t.gen_challenge(extra);
                // the challenge covers the generators, the commitments and whatever else is given
                for (w, e) in vec![("nothing", vec![]), ("another nonce", { let mut e = C.to_bytes(); e.extend_from_slice(b"b nonce"); e }), ("another commitment", { let mut e = base(1).to_bytes(); e.extend_from_slice(nonce); e })] {
                    c.ensure(t.gen_challenge(e) != x, "challenge", || format!("equal for {}", w))?;
                }
                let p = made(c, "prove", || "honest".into(), || t.clone().gen_proof(&x, &secrets).map_err(|e| e.to_string()))?;
                c.ensure(p.commitment == t.commitment && p.responses.len() == n, "prove", || "the proof has other parts".into())?;
                for i in 0..n + 3 {
                    if i != n { makes(c, false, "prove:count", || format!("{} secrets of {}", i, n), || t.clone().gen_proof(&x, &vals(0, i)).map_err(|e| e.to_string()))? }
                }
                let both = |c: &mut Ctx, want: bool, key: &str, w: &str, p: &$proof, g: &[G], C: &G, x: &F| -> R {
                    expect(c, want, key, || w.into(), || p.verify(g, C, x).map_err(|e| e.to_string()))
                };
                let whole = |c: &mut Ctx, want: bool, key: &str, w: &str, p: &$proof, g: &[G], C: &G, x: &F, nonce: &[u8]| -> R {
                    expect(c, want, key, || format!("complete proof: {}", w), || p.verify_complete_proof(g, C, x, nonce).map_err(|e| e.to_string()))
                };
                both(c, true, "honest", "honest", &p, &gens, &C, &x)?;
                whole(c, true, "honest", "honest", &p, &gens, &C, &x, nonce)?;
                for k in vec![&b""[..], b"a nonc", b"b nonce", b"a nonce "] { whole(c, false, "nonce", "another nonce", &p, &gens, &C, &x, k)? }
                let trivial = C.is_identity();
                for y in vec![f(0), f(1), f(-1), &x + &f(1), x.negation()] {
                    both(c, trivial, "altered", "another challenge", &p, &gens, &C, &y)?;
                    whole(c, false, "altered", "another challenge", &p, &gens, &C, &y, nonce)?;
                }
                for D in vec![G::identity(), -&C, &C + &base(1), &C + &C] {
                    if D == C { continue }
                    both(c, false, "altered", "another commitment", &p, &gens, &D, &x)?;
                    whole(c, false, "altered", "another commitment", &p, &gens, &D, &x, nonce)?;
                }
                for t in vec![G::identity(), -&p.commitment, &p.commitment + &base(1)] {
                    if t == p.commitment { continue }
                    let q = <$proof>::from_parts(t, p.responses.as_slice().to_vec());
                    both(c, false, "altered", "another random commitment", &q, &gens, &C, &x)?;
                    whole(c, false, "altered", "another random commitment", &q, &gens, &C, &x, nonce)?;
                }
                for i in 0..n {
                    for r in vec![f(0), &p.responses[i] + &f(1), p.responses[i].negation()] {
                        let mut v = p.responses.as_slice().to_vec();
                        v[i] = r;
                        let q = <$proof>::from_parts(p.commitment.clone(), v);
                        both(c, false, "altered", "another response", &q, &gens, &C, &x)?;
                        whole(c, false, "altered", "another response", &q, &gens, &C, &x, nonce)?;
                    }
                    let mut g = gens.clone();
                    g[i] = base(5);
                    both(c, false, "altered", "another generator", &p, &g, &C, &x)?;
                    whole(c, false, "altered", "another generator", &p, &g, &C, &x, nonce)?;
                    // an honest proof for another value
                    let mut s = secrets.clone();
                    s[i] = &s[i] + &f(1);
                    let q = made(c, "prove", || "other".into(), || t.clone().gen_proof(&x, &s).map_err(|e| e.to_string()))?;
                    both(c, false, "false", "a value that is not in the commitment", &q, &gens, &C, &x)?;
                    whole(c, false, "false", "a value that is not in the commitment", &q, &gens, &C, &x, nonce)?;
                }
                for k in 0..n + 3 {
                    if k == n { continue }
                    let mut g = gens.clone();
                    g.resize(k, G::identity());
                    both(c, false, "count", "another number of generators", &p, &g, &C, &x)?;
                    whole(c, false, "count", "another number of generators", &p, &g, &C, &x, nonce)?;
                    let mut v = p.responses.as_slice().to_vec();
                    v.resize(k, f(0));
                    both(c, false, "count", "another number of responses", &<$proof>::from_parts(p.commitment.clone(), v), &gens, &C, &x)?;
                }
                // byte forms
                let bytes = p.to_bytes();
                c.same(bytes.len(), $size + 4 + 48 * n, "bytes:len", "length")?;
                let back = made(c, "bytes", || format!("from_bytes(to_bytes()) of {} values", n), || <$proof>::from_bytes(&bytes).map_err(|e| e.to_string()))?;
                c.ensure(back.commitment == p.commitment && back.responses.as_slice() == p.responses.as_slice(), "bytes", || "another proof comes back".into())?;
                both(c, true, "bytes", "after a round trip", &back, &gens, &C, &x)?;
                for k in 0..bytes.len() {
                    makes(c, false, "bytes:cut", || format!("{} of {} bytes", k, bytes.len()), || <$proof>::from_bytes(&bytes[..k]).map(|_| ()).map_err(|e| e.to_string()))?;
                }
                for k in vec![0u32, 1, n as u32 + 1, 1 << 26, 1 << 31, u32::MAX - 1, u32::MAX] {
                    let mut b = bytes.clone();
                    b[$size..$size + 4].copy_from_slice(&k.to_be_bytes());
                    let r = verdict(c, "bytes:count", || format!("{} responses announced, {} there", k, n), || <$proof>::from_bytes(&b).map_err(|e| e.to_string()))?;
                    c.ensure(r.is_some() == (k as usize <= n), "bytes:count", || format!("{} responses announced, {} there", k, n))?;
                    if let Some(q) = r {
                        if (k as usize) < n { both(c, false, "bytes:count", "fewer announced", &q, &gens, &C, &x)? }
                    }
                }
                for i in 0..bytes.len() {
                    if !c.thorough() && i % 7 != 0 && i > 12 && i < $size { continue }
                    let mut b = bytes.clone();
                    b[i] ^= 0x81;
                    if let Some(q) = verdict(c, "bytes:flip", || format!("byte {} changed", i), || <$proof>::from_bytes(&b).map_err(|e| e.to_string()))? {
                        if q.commitment == p.commitment && q.responses.as_slice() == p.responses.as_slice() { continue }
                        both(c, false, "bytes:flip", "a byte changed", &q, &gens, &C, &x)?;
                    }
                }
                let back: $proof = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
                both(c, true, "json", "after a round trip", &back, &gens, &C, &x)?;
                let t3: $committed = serde_json::from_str(&serde_json::to_string(&t).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
                let q = made(c, "json", || "committed".into(), || t3.gen_proof(&x, &secrets).map_err(|e| e.to_string()))?;
                both(c, true, "json", "prover's state after a round trip", &q, &gens, &C, &x)?;
                c.outcome("ok");
                Ok(())
            }
        }
    };
}
trait Parts<G>: Sized { fn from_parts(g: G, r: Vec<F>) -> Self; }
macro_rules! parts { ($p:ty, $g:ty) => { impl Parts<$g> for $p { fn from_parts(g: $g, r: Vec<F>) -> Self { Self { commitment: g, responses: r.into() } } } } }
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem_g2::G2;
use zmix::commitments::pok_vc as vc;
use zmix::signatures::ps::{blind_signature as bl, pok_sig as ps, OtherGroup, SignatureGroup};
parts!(vc::ProofG1, G1);
parts!(vc::ProofG2, G2);
parts!(bl::ProofSignatureGroup, SignatureGroup);
parts!(ps::ProofOtherGroup, OtherGroup);
group!(g1, G1, vc::ProverCommittingG1, vc::ProverCommittedG1, vc::ProofG1, 97);
group!(g2, G2, vc::ProverCommittingG2, vc::ProverCommittedG2, vc::ProofG2, 192);
group!(sig, SignatureGroup, bl::ProverCommittingSignatureGroup, bl::ProverCommittedSignatureGroup, bl::ProofSignatureGroup, 192);
group!(other, OtherGroup, ps::ProverCommittingOtherGroup, ps::ProverCommittedOtherGroup, ps::ProofOtherGroup, 97);

pub fn build(t: Tier) -> Check {
    let n = if t == Tier::Thorough { 5 } else { 3 };
    let b = move |s: &str| format!("{}: up to {} values, every single alteration, every cut of the bytes", s, n);
    let b2 = move |s: &str| format!("{}: 23 lengths of nonces up to 65537 bytes, every byte at an edge or a power of two changed, every cut there", s);
    let l = move |s: &str| format!("{}: up to {} values, every place at an edge or a power of two altered", s, if t == Tier::Thorough { 257 } else { 33 });
    let e = move |s: &str| format!("{}: generators, values, challenge and responses by their exponents over small domains", s);
    Check {
        rule: "A proof of knowledge of committed values is accepted exactly when its equation holds; what a prover makes is accepted; byte forms round-trip".into(),
        assumptions: vec!["group arithmetic of amcl_wrapper; its from_bytes maps bytes that are not a point to the identity".into()],
        scenarios: vec![
            Scenario::new("exact-g1", e("G1"), g1::exact), Scenario::new("exact-g2", e("G2"), g2::exact),
            Scenario::new("exact-sig", e("signature group"), sig::exact), Scenario::new("exact-other", e("other group"), other::exact),
            Scenario::new("g1", b("G1"), g1::honest), Scenario::new("g2", b("G2"), g2::honest),
            Scenario::new("sig", b("signature group"), sig::honest), Scenario::new("other", b("other group"), other::honest),
            Scenario::new("nonces-g1", b2("G1"), g1::nonces), Scenario::new("nonces-g2", b2("G2"), g2::nonces),
            Scenario::new("nonces-sig", b2("signature group"), sig::nonces), Scenario::new("nonces-other", b2("other group"), other::nonces),
            Scenario::new("large-g1", l("G1"), g1::large), Scenario::new("large-g2", l("G2"), g2::large),
            Scenario::new("large-sig", l("signature group"), sig::large), Scenario::new("large-other", l("other group"), other::large),
        ],
    }
}
