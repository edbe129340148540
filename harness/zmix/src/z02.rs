//! Z02: proofs of knowledge of PS signatures with selective disclosure.
use crate::util::*;
use crate::z01::{keys, Keys};
use mc::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use zmix::signatures::ps::keys::Verkey;
use zmix::signatures::ps::pok_sig::{PoKOfSignature, PoKOfSignatureProof, ProofOtherGroup};
use zmix::signatures::ps::signature::Signature;
use zmix::signatures::ps::{OtherGroup, SignatureGroup};

type Rev = BTreeMap<usize, F>;
fn set(x: &[usize]) -> HashSet<usize> { x.iter().copied().collect() }
fn rev(ms: &[F], shown: &[usize]) -> Rev { shown.iter().map(|i| (*i, ms[*i].clone())).collect() }
pub fn chal(bytes: &[u8], nonce: &[u8]) -> F {
    let mut b = bytes.to_vec();
    b.extend_from_slice(nonce);
    F::from_msg_hash(&b)
}
fn sig(pat: usize, n: usize, key: usize) -> Arc<Signature> {
    static C: Memo<(usize, usize, usize), Signature> = Memo::new();
    C.of(&(pat, n, key), || Signature::new(&vals(pat, n), &keys(key, n).sk, &keys(key, n).params).unwrap())
}
/// A verifier that makes its own challenge, for what it believes to be revealed.
pub fn check(c: &mut Ctx, p: &PoKOfSignatureProof, vk: &Verkey, k: &Keys, r: &Rev, nonce: &[u8], want: bool, key: &str, what: impl Fn() -> String) -> R {
    expect(c, want, key, || format!("{}, revealed {:?}", what(), r.iter().map(|(i, m)| (*i, name(m))).collect::<Vec<_>>()), || {
        let b = p.get_bytes_for_challenge(r.keys().copied().collect(), vk, &k.params);
        p.verify(vk, &k.params, r.clone().into_iter().collect::<HashMap<_, _>>(), &chal(&b, nonce)).map_err(|e| e.to_string())
    })
}
fn show(c: &mut Ctx) -> R {
    let n = c.choose("messages", c.q(4, 5));
    let shown = c.subset("shown", n);
    let pat = c.choose("values", 3);
    let own = c.flag("own blindings");
    c.state(&(n, &shown, pat, own));
    let k = keys(0, n);
    let ms = vals(pat, n);
    let s = sig(pat, n, 0);
    let hidden: Vec<usize> = (0..n).filter(|i| !shown.contains(i)).collect();
    let bl: Vec<F> = hidden.iter().map(|i| val(20 + i)).collect();
    let init = || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, if own { Some(&bl) } else { None }, set(&shown));
    let pok = made(c, "init", || format!("{} messages, shown {:?}", n, shown), || init())?;
    let other = made(c, "init", || "again".into(), || init())?;
    c.ensure(pok.sig.sigma_1 != s.sigma_1 && pok.sig.sigma_2 != s.sigma_2 && pok.sig.sigma_1 != other.sig.sigma_1, "fresh", || "the signature is not randomized".into())?;
    c.ensure(pok.J != other.J && pok.pok_vc.commitment != other.pok_vc.commitment, "fresh", || "the commitments are not fresh".into())?;
    let nonce = b"a nonce";
    let x = chal(&pok.to_bytes(), nonce);
    let bytes = pok.to_bytes();
    let p = made(c, "prove", || "proof".into(), || pok.clone().gen_proof(&x))?;
    let q = made(c, "prove", || "proof".into(), || other.gen_proof(&x))?;
    c.ensure(p.get_bytes_for_challenge(set(&shown), &k.vk, &k.params) == bytes, "challenge", || "prover and verifier hash other bytes".into())?;
    for (i, h) in hidden.iter().enumerate() {
        let (a, b) = (made(c, "resp", || format!("response {}", i), || p.get_resp_for_message(i))?, made(c, "resp", || format!("response {}", i), || q.get_resp_for_message(i))?);
        c.ensure((a == b) == own, "resp", || format!("responses for message {} are {} in two proofs", h, if a == b { "equal" } else { "different" }))?;
        if own { c.ensure(a == &bl[i] - &(&x * &ms[*h]), "resp", || format!("response for message {} is not for the given blinding", h))? }
    }
    for i in vec![hidden.len(), hidden.len() + 1, usize::MAX - 1, usize::MAX] {
        makes(c, false, "resp:index", || format!("response {} of {}", i, hidden.len()), || p.get_resp_for_message(i))?;
    }
    let r = rev(&ms, &shown);
    check(c, &p, &k.vk, &k, &r, nonce, true, "honest", || "honest".into())?;
    // everything else the verifier may take as revealed
    for asked in subsets(n) {
        if asked == shown { continue }
        check(c, &p, &k.vk, &k, &rev(&ms, &asked), nonce, false, "asked", || format!("shown {:?}", shown))?;
        // the prover answers the challenge of that verifier
        let x2 = chal(&p.get_bytes_for_challenge(set(&asked), &k.vk, &k.params), nonce);
        let p2 = made(c, "prove", || "proof".into(), || pok.clone().gen_proof(&x2))?;
        check(c, &p2, &k.vk, &k, &rev(&ms, &asked), nonce, false, "asked:answered", || format!("shown {:?}", shown))?;
    }
    for i in &shown {
        for j in 0..6 {
            if val(j) == ms[*i] { continue }
            let mut r = r.clone();
            r.insert(*i, val(j));
            check(c, &p, &k.vk, &k, &r, nonce, false, "value", || format!("message {} replaced", i))?;
        }
        for j in &shown {
            if j < i && ms[*i] != ms[*j] {
                let mut r = r.clone();
                r.insert(*i, ms[*j].clone());
                r.insert(*j, ms[*i].clone());
                check(c, &p, &k.vk, &k, &r, nonce, false, "value", || format!("messages {} and {} swapped", i, j))?;
            }
        }
    }
    // indices that do not exist
    for j in vec![n, n + 1, usize::MAX] {
        for zero in [true, false].iter() {
            let mut r = r.clone();
            r.insert(j, if *zero { f(0) } else { val(3) });
            check(c, &p, &k.vk, &k, &r, nonce, false, "index", || format!("index {}", j))?;
            for i in &shown {
                let mut r = r.clone();
                r.remove(i);
                check(c, &p, &k.vk, &k, &r, nonce, false, "index", || format!("index {} for {}", j, i))?;
            }
        }
    }
    let many: Rev = (0..2 * n + 3).map(|i| (i, val(i))).collect();
    check(c, &p, &k.vk, &k, &many, nonce, false, "index", || "many".into())?;
    // other keys, other nonce
    check(c, &p, &k.vk, &k, &r, b"another", false, "nonce", || "another nonce".into())?;
    for o in 1..3 {
        let o = keys(o, n);
        check(c, &p, &o.vk, &k, &r, nonce, false, "key", || "another key".into())?;
        check(c, &p, &o.vk, &o, &r, nonce, false, "key", || "another key".into())?;
        check(c, &p, &Verkey { X_tilde: o.vk.X_tilde.clone(), Y_tilde: k.vk.Y_tilde.clone() }, &k, &r, nonce, false, "key", || "another X".into())?;
        for i in 0..n {
            if shown.contains(&i) && ms[i].is_zero() { continue }
            let mut vk = k.vk.clone();
            vk.Y_tilde[i] = o.vk.Y_tilde[i].clone();
            check(c, &p, &vk, &k, &r, nonce, false, "key", || format!("another Y {}", i))?;
        }
    }
    for m in 0..n + 3 {
        if m == n { continue }
        let mut vk = keys(0, m).vk.clone();
        for i in 0..n.min(m) { vk.Y_tilde[i] = k.vk.Y_tilde[i].clone() }
        vk.X_tilde = k.vk.X_tilde.clone();
        check(c, &p, &vk, &k, &r, nonce, false, "key:count", || format!("a key for {} messages", m))?;
    }
    // other messages than those that were signed
    for i in 0..n {
        let mut m = ms.clone();
        m[i] = m[i].clone() + f(1);
        let pok = made(c, "init", || "other".into(), || PoKOfSignature::init(&s, &k.vk, &k.params, &m, None, set(&shown)))?;
        let x = chal(&pok.to_bytes(), nonce);
        let p = made(c, "prove", || "other".into(), || pok.gen_proof(&x))?;
        check(c, &p, &k.vk, &k, &rev(&m, &shown), nonce, false, "unsigned", || format!("message {} was not signed", i))?;
        check(c, &p, &k.vk, &k, &r, nonce, shown.contains(&i), "unsigned", || format!("message {} was not signed", i))?;
    }
    // wrong calls
    for m in 0..n + 3 {
        if m == n { continue }
        makes(c, false, "init:count", || format!("{} messages of {}", m, n), || PoKOfSignature::init(&s, &k.vk, &k.params, &vals(pat, m), None, set(&shown)))?;
    }
    for b in 0..n + 3 {
        let bl: Vec<F> = (0..b).map(|i| val(40 + i)).collect();
        makes(c, b == hidden.len(), "init:blindings", || format!("{} blindings for {} hidden", b, hidden.len()), || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, Some(&bl), set(&shown)))?;
    }
    for j in vec![n, n + 1, usize::MAX] {
        let mut r = set(&shown);
        r.insert(j);
        makes(c, false, "init:index", || format!("reveal {} of {}", j, n), || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, None, r))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Every alteration of a proof, and whether the challenge covers it.
fn alter(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(3, 4));
    let shown = c.subset("shown", n);
    c.state(&(n, &shown));
    let k = keys(0, n);
    let ms = vals(0, n);
    let s = sig(0, n, 0);
    let nonce = b"a nonce";
    let one = |c: &mut Ctx| -> V<(PoKOfSignature, PoKOfSignatureProof, F)> {
        let pok = made(c, "init", || "init".into(), || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, None, set(&shown)))?;
        let x = chal(&pok.to_bytes(), nonce);
        let p = made(c, "prove", || "prove".into(), || pok.clone().gen_proof(&x))?;
        Ok((pok, p, x))
    };
    let (_, p, x) = one(c)?;
    let (_, q, x2) = one(c)?;
    let r = rev(&ms, &shown);
    let sg = |i: usize, g: &SignatureGroup, o: &SignatureGroup| match i { 0 => SignatureGroup::identity(), 1 => -g, 2 => g + g, 3 => g + &k.params.g, _ => o.clone() };
    let og = |i: usize, g: &OtherGroup, o: &OtherGroup| match i { 0 => OtherGroup::identity(), 1 => -g, 2 => g + g, 3 => g + &k.params.g_tilde, _ => o.clone() };
    let bytes = |p: &PoKOfSignatureProof| p.get_bytes_for_challenge(set(&shown), &k.vk, &k.params);
    let fixed = |c: &mut Ctx, p: &PoKOfSignatureProof, x: &F, what: String| {
        // with the challenge of the prover, in a protocol where somebody else makes it
        expect(c, false, "altered:fixed", || what.clone(), || p.verify(&k.vk, &k.params, r.clone().into_iter().collect(), x))
    };
    for i in 0..5 {
        for part in 0..4 {
            let mut a = p.clone();
            let w = match part {
                0 => { a.sig.sigma_1 = sg(i, &p.sig.sigma_1, &q.sig.sigma_1); "sigma 1" }
                1 => { a.sig.sigma_2 = sg(i, &p.sig.sigma_2, &q.sig.sigma_2); "sigma 2" }
                2 => { a.J = og(i, &p.J, &q.J); "J" }
                _ => { a.proof_vc.commitment = og(i, &p.proof_vc.commitment, &q.proof_vc.commitment); "commitment" }
            };
            c.ensure(bytes(&a) != bytes(&p), "challenge:covers", || format!("{} is not part of the challenge", w))?;
            check(c, &a, &k.vk, &k, &r, nonce, false, "altered", || format!("{} {}", w, i))?;
            fixed(c, &a, &x, format!("{} {}", w, i))?;
        }
    }
    let nr = p.proof_vc.responses.len();
    c.same(nr, n - shown.len() + 1, "responses", "responses")?;
    for i in 0..nr {
        for d in 0..4 {
            let mut v: Vec<F> = p.proof_vc.responses.as_slice().to_vec();
            v[i] = match d { 0 => &v[i] + &f(1), 1 => f(0), 2 => v[i].negation(), _ => q.proof_vc.responses[i].clone() };
            let a = PoKOfSignatureProof { proof_vc: ProofOtherGroup { commitment: p.proof_vc.commitment.clone(), responses: v.into() }, ..p.clone() };
            check(c, &a, &k.vk, &k, &r, nonce, false, "altered", || format!("response {}", i))?;
        }
    }
    for len in 0..nr + 2 {
        if len == nr { continue }
        let mut v: Vec<F> = p.proof_vc.responses.as_slice().to_vec();
        v.resize(len, f(0));
        let a = PoKOfSignatureProof { proof_vc: ProofOtherGroup { commitment: p.proof_vc.commitment.clone(), responses: v.into() }, ..p.clone() };
        check(c, &a, &k.vk, &k, &r, nonce, false, "altered:count", || format!("{} responses, not {}", len, nr))?;
        for i in vec![0, len, nr, usize::MAX] {
            makes(c, i < len.saturating_sub(1), "resp:index", || format!("response {} of {}", i, len), || a.get_resp_for_message(i))?;
        }
    }
    // parts of two proofs together
    for mix in 1..7 {
        let mut a = p.clone();
        if mix & 1 != 0 { a.sig = q.sig.clone() }
        if mix & 2 != 0 { a.J = q.J.clone() }
        if mix & 4 != 0 { a.proof_vc = q.proof_vc.clone() }
        check(c, &a, &k.vk, &k, &r, nonce, false, "mixed", || format!("mixture {}", mix))?;
        fixed(c, &a, &x, format!("mixture {}", mix))?;
        fixed(c, &a, &x2, format!("mixture {}", mix))?;
    }
    for y in vec![f(0), f(1), x2.clone(), x.negation(), &x + &f(1)] {
        fixed(c, &p, &y, format!("challenge {}", name(&y)))?;
    }
    // the randomized signature raised once more is as good in a protocol with a fixed challenge
    let a = PoKOfSignatureProof { sig: Signature { sigma_1: &p.sig.sigma_1 * &f(3), sigma_2: &p.sig.sigma_2 * &f(3) }, ..p.clone() };
    expect(c, true, "randomized", || "raised".into(), || a.verify(&k.vk, &k.params, r.clone().into_iter().collect(), &x))?;
    check(c, &a, &k.vk, &k, &r, nonce, false, "randomized", || "raised".into())?;
    // what a forger without a signature can do: any signature values, any J, an honest proof of J
    let mut bases = vec![k.params.g_tilde.clone()];
    for i in 0..n { if !shown.contains(&i) { bases.push(k.vk.Y_tilde[i].clone()) } }
    for (s1, s2) in vec![(f(1), f(1)), (f(1), f(0)), (f(0), f(1)), (f(0), f(0)), (f(2), f(3))] {
        let mut com = zmix::signatures::ps::pok_sig::ProverCommittingOtherGroup::new();
        let mut J = OtherGroup::identity();
        let secrets: Vec<F> = (0..bases.len()).map(|i| val(i)).collect();
        for (b, s) in bases.iter().zip(&secrets) { com.commit(b, None); J += b * s }
        let com = com.finish();
        let sig = Signature { sigma_1: &k.params.g * &s1, sigma_2: &k.params.g * &s2 };
        let pok = PoKOfSignature { secrets: secrets.into(), sig, J, pok_vc: com };
        let x = chal(&pok.to_bytes(), nonce);
        let p = made(c, "prove", || "forger".into(), || pok.gen_proof(&x))?;
        check(c, &p, &k.vk, &k, &r, nonce, false, "forged", || format!("signature ({}, {})", name(&s1), name(&s2)))?;
    }
    // the proof in JSON
    let b: PoKOfSignatureProof = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
    check(c, &b, &k.vk, &k, &r, nonce, true, "json", || "after a round trip".into())?;
    c.outcome("ok");
    Ok(())
}
/// Two signatures under two keys, with one blinding for one message of each.
fn link(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(2, 3));
    let m = 1 + c.choose("messages of the other", c.q(2, 3));
    let (sa, sb) = (c.subset("shown", n), c.subset("shown of the other", m));
    let equal = c.flag("equal values");
    c.state(&(n, m, &sa, &sb, equal));
    let (ka, kb) = (keys(0, n), keys(1, m));
    let va: Vec<F> = (0..n).map(|i| val(3 + i)).collect();
    let vb: Vec<F> = (0..m).map(|i| val(if equal { 3 + i } else { 10 + i })).collect();
    let (s, t) = (made(c, "sign", || "a".into(), || Signature::new(&va, &ka.sk, &ka.params))?, made(c, "sign", || "b".into(), || Signature::new(&vb, &kb.sk, &kb.params))?);
    let ha: Vec<usize> = (0..n).filter(|i| !sa.contains(i)).collect();
    let hb: Vec<usize> = (0..m).filter(|i| !sb.contains(i)).collect();
    // message i is blinded with the same value in both
    let bl = |h: &[usize]| h.iter().map(|i| val(50 + i)).collect::<Vec<F>>();
    let a = made(c, "init", || "a".into(), || PoKOfSignature::init(&s, &ka.vk, &ka.params, &va, Some(&bl(&ha)), set(&sa)))?;
    let b = made(c, "init", || "b".into(), || PoKOfSignature::init(&t, &kb.vk, &kb.params, &vb, Some(&bl(&hb)), set(&sb)))?;
    let mut by = a.to_bytes();
    by.extend(b.to_bytes());
    let x = chal(&by, b"nonce");
    let (p, q) = (made(c, "prove", || "a".into(), || a.gen_proof(&x))?, made(c, "prove", || "b".into(), || b.gen_proof(&x))?);
    let mut by = p.get_bytes_for_challenge(set(&sa), &ka.vk, &ka.params);
    by.extend(q.get_bytes_for_challenge(set(&sb), &kb.vk, &kb.params));
    let y = chal(&by, b"nonce");
    c.ensure(x == y, "link:challenge", || "the verifier gets another challenge".into())?;
    expect(c, true, "link:proof", || "a".into(), || p.verify(&ka.vk, &ka.params, rev(&va, &sa).into_iter().collect(), &y))?;
    expect(c, true, "link:proof", || "b".into(), || q.verify(&kb.vk, &kb.params, rev(&vb, &sb).into_iter().collect(), &y))?;
    for (i, g) in ha.iter().enumerate() {
        for (j, h) in hb.iter().enumerate() {
            let same = p.get_resp_for_message(i).unwrap() == q.get_resp_for_message(j).unwrap();
            c.ensure(same == (g == h && equal), "link:resp", || format!("messages {} and {}: responses {}", g, h, if same { "equal" } else { "different" }))?;
        }
    }
    Ok(())
}
pub fn build(t: Tier) -> Check {
    let n = if t == Tier::Thorough { 4 } else { 3 };
    Check {
        rule: "A proof of knowledge of a PS signature is accepted exactly for the revealed messages, key, and challenge it was made for".into(),
        assumptions: vec!["pairing and group arithmetic of amcl_wrapper".into(), "the verifier makes the challenge from get_bytes_for_challenge and its nonce".into()],
        scenarios: vec![
            Scenario::new("show", format!("up to {} messages, every set shown, every set asked", n), show),
            Scenario::new("alter", format!("up to {} messages, every set shown, every part of the proof altered", n), alter),
            Scenario::new("link", "two signatures with common blindings, every pair of hidden messages", link),
            Scenario::new("large", format!("up to {} messages, 8 sets shown, every place at an edge or a power of two altered", if t == Tier::Thorough { 257 } else { 33 }), crate::large::ps_pok),
            Scenario::new("hiding", format!("up to {} messages, 8 sets shown, up to 3 proofs: secrets and blindings from two answers of each prover", if t == Tier::Thorough { 19 } else { 11 }), crate::large::ps_hiding),
        ],
    }
}
