//! Many messages, long inputs, and what the responses of a proof hide.
use crate::b02::{check, cuts, pm, prove};
use crate::util::*;
use bbs::keys::KeyGenOption;
use bbs::prelude::*;
use ff_zeroize::Field;
use mc::*;
use pairing_plus::bls12_381::Fr;
use std::collections::{BTreeMap, BTreeSet};

/// Message `i` of many: all different.
fn m(i: usize) -> M { M::hash(format!("large {}", i)) }
fn sizes(t: bool) -> Vec<usize> {
    let mut v = vec![8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    if t { v.extend_from_slice(&[511, 512, 513, 1023, 1024, 1025]) }
    v
}
fn pattern(k: usize, n: usize) -> Vec<usize> {
    match k {
        0 => vec![],
        1 => (0..n).collect(),
        2 => (0..n).step_by(2).collect(),
        3 => vec![n - 1],
        4 => (0..n - 1).collect(),
        5 => (1..n).collect(),
        6 => (n / 2..n).collect(),
        _ => vec![0, n / 2, n - 1],
    }
}
static SIG: Memo<usize, Signature> = Memo::new();
fn signature(n: usize) -> Signature {
    (*SIG.of(&n, || { let (pk, sk) = keys(0, n); Issuer::sign(&(0..n).map(m).collect::<Vec<_>>(), &sk, &pk).unwrap() })).clone()
}

pub fn sign(c: &mut Ctx) -> R {
    let n = c.pick("messages", &sizes(c.thorough()));
    let (pk, sk) = keys(0, n);
    let ms: Vec<M> = (0..n).map(m).collect();
    let i = c.choose("message", n);
    // in large keys only around the powers of two, unless thorough
    if n > 65 && !c.thorough() && i & (i + 1) != 0 && i & i.wrapping_sub(1) != 0 && i + 1 != n { c.outcome("left out"); return Ok(()) }
    c.state(&(n, i));
    if i == 0 {
        let mut seen = BTreeSet::new();
        let mut other: Vec<usize> = (0..11).map(|b| n ^ (1 << b)).filter(|k| *k > 0 && *k <= c.q(300, 1100)).collect();
        other.push(n);
        other.push(n & 0x3f);
        other.sort();
        other.dedup();
        let mut count = 0;
        for k in other.into_iter().filter(|k| *k > 0) {
            let p = keys(0, k).0;
            count += k + 1;
            seen.insert(p.h0.to_bytes_compressed_form().to_vec());
            for h in &p.h { seen.insert(h.to_bytes_compressed_form().to_vec()); }
        }
        c.ensure(seen.len() == count, "generators", || format!("{} messages: a generator occurs twice, in this key or one for another number of messages", n))?;
    }
    let s = signature(n);
    if i == 0 { expect(c, true, "large:verify", || format!("a signature on {} messages", n), || s.verify(&ms, &pk))?; }
    let mut x = ms.clone();
    x[i] = m(n + 1);
    expect(c, false, "large:replaced", || format!("message {} of {} replaced", i, n), || s.verify(&x, &pk))?;
    let mut q = pk.clone();
    q.h[i] = GeneratorG1::default();
    c.ensure(q.validate().is_err(), "large:neutral", || format!("generator {} of {} is neutral: valid", i, n))?;
    if n < 40 {
        expect(c, false, "large:neutral", || format!("generator {} of {} is neutral", i, n), || s.verify(&ms, &q))?;
        let t = Issuer::sign(&ms, &sk, &q);
        c.ensure(t.is_err(), "large:neutral", || format!("generator {} of {} is neutral: signed", i, n))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Blind signatures on many messages.
pub fn blind(c: &mut Ctx) -> R {
    let n = c.pick("messages", &sizes(c.thorough())[..c.q(13, 22)].to_vec());
    let pat = c.choose("hidden", 8);
    let (pk, sk) = keys(0, n);
    let hidden = pattern(pat, n);
    c.state(&(n, pat));
    let h: BTreeMap<usize, M> = hidden.iter().map(|i| (*i, m(*i))).collect();
    let k: BTreeMap<usize, M> = (0..n).filter(|i| !h.contains_key(i)).map(|i| (i, m(i))).collect();
    let nonce = ProofNonce::hash(b"nonce");
    let r = guard(|| Prover::new_blind_signature_context(&pk, &h, &nonce));
    let (ctx, blinding) = match r { Ok(Ok(x)) => x, x => return violation("large:blind", format!("{:?}", x.map(|y| y.is_ok()))) };
    c.step();
    let b = match guard(|| Issuer::blind_sign(&ctx, &k, &sk, &pk, &nonce)) { Ok(Ok(b)) => b, x => return violation("large:blind", format!("{} messages, pattern {}: {:?}", n, pat, x.map(|y| y.is_ok()))) };
    let all: Vec<M> = (0..n).map(m).collect();
    let s = match guard(|| Prover::complete_signature(&pk, &all, &b, &blinding)) { Ok(Ok(s)) => s, _ => return violation("large:blind", format!("{} messages, pattern {}: the blind signature cannot be completed", n, pat)) };
    for i in vec![0, n / 2, n - 1] {
        let mut x = all.clone();
        x[i] = m(n + 1);
        expect(c, false, "large:blind", || format!("message {} of {} replaced", i, n), || s.verify(&x, &pk))?;
        // the issuer's list lacks one message, or names one of the holder's
        let mut k2 = k.clone();
        if k2.remove(&i).is_none() { k2.insert(i, m(i)); }
        expect(c, false, "large:blind", || format!("{} messages, pattern {}: the issuer's list is wrong in {}", n, pat, i), || Issuer::blind_sign(&ctx, &k2, &sk, &pk, &nonce).map(|_| true))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Long inputs of the hashes: every part of them counts.
pub fn hashes(c: &mut Ctx) -> R {
    let l = c.pick("length", &[1usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    let at = c.pick("byte", &[0, 1, 31, 32, 63, 64, 127, 128, 255, 256, 4095, 4096, 65535, usize::max_value()]);
    let at = if at == usize::max_value() { l - 1 } else { at };
    if at >= l { c.outcome("not that long"); return Ok(()) }
    c.state(&(l, at));
    let a = vec![7u8; l];
    let mut b = a.clone();
    b[at] ^= 1;
    let what = |n: &str| format!("{}: {} bytes that differ in byte {} give the same", n, l, at);
    c.ensure(M::hash(&a) != M::hash(&b) && M::hash(&a) == M::hash(&a), "hash:message", || what("message"))?;
    c.ensure(M::hash(&a) != M::hash(&a[..l - 1]), "hash:message", || what("a message cut"))?;
    c.ensure(ProofNonce::hash(&a) != ProofNonce::hash(&b), "hash:nonce", || what("nonce"))?;
    c.ensure(ProofChallenge::hash(&a) != ProofChallenge::hash(&b), "hash:challenge", || what("challenge"))?;
    c.ensure(GeneratorG1::hash(&a) != GeneratorG1::hash(&b), "hash:generator", || what("generator"))?;
    let k = |s: &[u8]| Issuer::new_short_keys(Some(KeyGenOption::UseSeed(s.to_vec()))).unwrap();
    let (x, y) = (k(&a), k(&b));
    c.ensure(x.0 != y.0 && x.1 != y.1 && x == k(&a), "hash:seed", || what("seed of a key"))?;
    c.steps(6);
    c.outcome("ok");
    Ok(())
}
/// Proofs over many messages.
pub fn show(c: &mut Ctx) -> R {
    let n = c.pick("messages", &sizes(c.thorough()));
    let pat = c.choose("shown", 8);
    let shown = pattern(pat, n);
    let (pk, _) = keys(0, n);
    let ms: Vec<M> = (0..n).map(m).collect();
    let s = signature(n);
    let nonce = ProofNonce::hash(b"a nonce");
    c.state(&(n, pat));
    let (p, pok) = prove(c, &shown, &ms, &s, &pk, &nonce)?;
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    let all: Vec<M> = shown.iter().map(|i| ms[*i]).collect();
    check(c, &req, &p, &nonce, Some(all), "large:show", || format!("{} messages, pattern {}", n, pat))?;
    let q = SignatureProof::from_bytes_compressed_form(&p.to_bytes_compressed_form()).map_err(|e| Violation { key: "large:bytes".into(), msg: e.to_string() })?;
    let r = ProofRequest::from_bytes_compressed_form(&req.to_bytes_compressed_form()).map_err(|e| Violation { key: "large:bytes".into(), msg: e.to_string() })?;
    c.ensure(r.to_bytes_uncompressed_form() == req.to_bytes_uncompressed_form() && q.to_bytes_uncompressed_form() == p.to_bytes_uncompressed_form(), "large:bytes", || format!("{} messages, pattern {}: another after a round trip", n, pat))?;
    // positions at which something is changed: the edges, and around the powers of two
    let spots: Vec<usize> = (0..n).filter(|i| *i < 2 || *i + 2 >= n || (i & (i + 1)) == 0 || (i & (i - 1)) == 0 || c.thorough() && i % 16 == 5).collect();
    for i in spots {
        if shown.contains(&i) {
            let mut q = p.clone();
            q.revealed_messages.insert(i, m(n + 1));
            check(c, &req, &q, &nonce, None, "large:value", || format!("{} messages, pattern {}: revealed message {} replaced", n, pat, i))?;
        }
        let asked: Vec<usize> = (0..n).filter(|j| shown.contains(j) != (*j == i)).collect();
        let other = Verifier::new_proof_request(&asked, &pk).unwrap();
        // the challenge depends on which are asked for
        let of = |s: &[usize]| p.proof.get_bytes_for_challenge(s.iter().copied().collect(), &pk);
        c.ensure(of(&asked) != of(&shown), "large:challenge", || format!("{} messages, pattern {}: the challenge is the same without or with {}", n, pat, i))?;
        let mut b = of(&asked);
        b.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
        let mut q = Prover::generate_signature_pok(pok.clone(), &ProofChallenge::hash(&b)).unwrap();
        check(c, &other, &q, &nonce, None, "large:asked", || format!("{} messages, pattern {}: asked differently in {}", n, pat, i))?;
        q.revealed_messages = asked.iter().map(|a| (*a, if *a == i { m(n + 1) } else { ms[*a] })).collect();
        check(c, &other, &q, &nonce, None, "large:asked", || format!("{} messages, pattern {}: asked differently in {}, another value given", n, pat, i))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Every blinding of a proof is a number of its own.  From two challenges the secrets and blindings come out.
pub fn hiding(c: &mut Ctx) -> R {
    let n = c.pick("messages", &[1usize, 2, 3, 5, 9, 10, 11, 17, 33, 65]);
    let pat = c.choose("shown", 8);
    if pat > 3 && n < 2 { c.outcome("the same as another pattern"); return Ok(()) }
    let shown: Vec<usize> = pattern(pat, n).into_iter().collect::<BTreeSet<_>>().into_iter().collect();
    let same_secret = c.flag("equal messages");
    let again = c.flag("from the same request");
    c.state(&(n, pat, same_secret, again));
    let (pk, sk) = keys(0, n);
    let ms: Vec<M> = (0..n).map(|i| if same_secret { m(0) } else { m(i) }).collect();
    let mut known: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    fn both(known: &mut BTreeMap<Vec<u8>, String>, x: &Fr, what: String) -> Result<(), Violation> {
        let mut neg = *x;
        neg.negate();
        let (a, b) = (fr_bytes(x), fr_bytes(&neg));
        for v in vec![&a, &b] { if let Some(w) = known.get(v) { return Err(Violation { key: "hiding:equal".into(), msg: format!("{} is {} (or its negative)", what, w) }) } }
        known.insert(a, what.clone());
        known.insert(b, what);
        Ok(())
    }
    let mut s = Issuer::sign(&ms, &sk, &pk).unwrap();
    for round in 0..3 {
        let nonce = ProofNonce::random();
        if !again && round > 0 { s = Issuer::sign(&ms, &sk, &pk).unwrap() }
        let raw = s.to_bytes_compressed_form();
        let (e, sv) = (fr_of(&raw[48..80]), fr_of(&raw[80..112]));
        if !again || round == 0 { both(&mut known, &e, format!("e of signature {}", round))?; both(&mut known, &sv, format!("s of signature {}", round))?; }
        let (_, pok) = prove(c, &shown, &ms, &s, &pk, &nonce)?;
        let (c1, c2) = (ProofChallenge::hash(b"one"), ProofChallenge::hash(b"two"));
        let get = |ch: &ProofChallenge| {
            let b = Prover::generate_signature_pok(pok.clone(), ch).unwrap().proof.to_bytes_uncompressed_form();
            let cs = cuts(&b);
            let second = cs.iter().rposition(|x| x.1 - x.0 == 96).unwrap();
            let r: Vec<Fr> = cs.iter().filter(|x| x.1 - x.0 == 32).map(|x| fr_of(&b[x.0..x.1])).collect();
            (r, second - 4)
        };
        let ((z1, split), (z2, _)) = (get(&c1), get(&c2));
        c.steps(2);
        let mut d = *c1.as_ref();
        d.sub_assign(c2.as_ref());
        let d = d.inverse().unwrap();
        let mut secrets = vec![];
        let mut blindings = vec![];
        for (a, b) in z1.iter().zip(&z2) {
            let mut x = *a;
            x.sub_assign(b);
            x.mul_assign(&d);
            let mut t = x;
            t.mul_assign(c1.as_ref());
            let mut u = *a;
            u.sub_assign(&t);
            secrets.push(x);
            blindings.push(u);
        }
        c.ensure(split == 2 && z1.len() == 4 + n - shown.len(), "hiding:shape", || format!("{} and {} responses", split, z1.len()))?;
        for (i, u) in blindings.iter().enumerate() { both(&mut known, u, format!("the blinding of response {} of proof {}", i, round))? }
        let eq = |a: &Fr, b: &Fr| { let mut n = *b; n.negate(); a == b || *a == n };
        c.ensure(secrets[..2].iter().any(|x| eq(x, &e)), "hiding:secrets", || "the first proof is not about e".into())?;
        let hid: Vec<Fr> = (0..n).filter(|i| !shown.contains(i)).map(|i| *ms[i].as_ref()).collect();
        c.ensure(secrets[4..].iter().zip(&hid).all(|(a, b)| eq(a, b)), "hiding:secrets", || "the second proof is not about the hidden messages".into())?;
        // r2, r3 and its inverse r1, and what is made of s
        for (i, x) in secrets[..4].iter().enumerate() {
            if eq(x, &e) { continue }
            both(&mut known, x, format!("secret {} of proof {}", i, round))?;
            both(&mut known, &x.inverse().unwrap(), format!("the inverse of secret {} of proof {}", i, round))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Every element or response in the place of every other one of its kind.
pub fn copied(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(2, 3));
    let shown = c.subset("shown", n);
    let (pk, sk) = keys(0, n);
    let nonce = ProofNonce::hash(b"a nonce");
    let ms: Vec<M> = (0..n).map(m).collect();
    static MADE: Memo<(usize, Vec<usize>), (SignatureProof, PoKOfSignature)> = Memo::new();
    let made = MADE.get(&(n, shown.clone()), || { let s = Issuer::sign(&ms, &sk, &pk).unwrap(); prove(c, &shown, &ms, &s, &pk, &nonce) })?;
    let (p, pok) = (made.0.clone(), made.1.clone());
    let b = p.proof.to_bytes_uncompressed_form();
    let cs = cuts(&b);
    let i = c.choose("place", cs.len());
    let j = c.choose("from", cs.len());
    let swap = c.flag("exchanged");
    let rehash = c.flag("challenge made anew");
    let lie = c.flag("another message shown");
    c.state(&(n, &shown, i, j, swap, rehash, lie));
    if i == j || cs[i].1 - cs[i].0 != cs[j].1 - cs[j].0 || lie && shown.is_empty() { c.outcome("not applicable"); return Ok(()) }
    let alter = |b: &mut Vec<u8>| {
        let (x, y) = (b[cs[i].0..cs[i].1].to_vec(), b[cs[j].0..cs[j].1].to_vec());
        b[cs[i].0..cs[i].1].copy_from_slice(&y);
        if swap { b[cs[j].0..cs[j].1].copy_from_slice(&x) }
    };
    let mut x = b.clone();
    alter(&mut x);
    let mut proof = PoKOfSignatureProof::from_bytes_uncompressed_form(&x).unwrap();
    if rehash {
        let mut hb = proof.get_bytes_for_challenge(shown.iter().copied().collect(), &pk);
        hb.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
        let mut y = Prover::generate_signature_pok(pok, &ProofChallenge::hash(&hb)).unwrap().proof.to_bytes_uncompressed_form();
        alter(&mut y);
        proof = PoKOfSignatureProof::from_bytes_uncompressed_form(&y).unwrap();
    }
    let mut revealed = p.revealed_messages.clone();
    if lie { revealed.insert(shown[0], m(99)); }
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    check(c, &req, &SignatureProof { revealed_messages: revealed, proof }, &nonce, None, "copied", || format!("part {} in the place of {} (exchanged: {}), shown {:?}", j, i, swap, shown))?;
    c.outcome("refused");
    Ok(())
}
/// Claims in the challenge: each of them counts, for both sides.
pub fn claims(c: &mut Ctx) -> R {
    let k = c.choose("claims", c.q(8, 20));
    let l = c.pick("bytes", &[1usize, 2, 40, 200]);
    let i = c.choose("claim", k.max(1));
    c.state(&(k, l, i));
    let (pk, _) = keys(0, 2);
    let ms = vec![m(0), m(1)];
    let nonce = ProofNonce::hash(b"a nonce");
    let (p, pok) = prove(c, &[0], &ms, &signature(2), &pk, &nonce)?;
    let req = Verifier::new_proof_request(&[0], &pk).unwrap();
    let cl: Vec<Vec<u8>> = (0..k).map(|i| vec![i as u8; l]).collect();
    let of = |v: &Vec<Vec<u8>>| -> V<ProofChallenge> {
        let s: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let a = Prover::create_challenge_hash(&[pok.clone()], Some(&s), &nonce).unwrap();
        let b = Verifier::create_challenge_hash(&[p.clone()], &[req.clone()], &nonce, Some(&s)).unwrap();
        if a != b { return violation("claims", format!("{} claims: prover and verifier compute another challenge", v.len())) }
        Ok(a)
    };
    let ch = of(&cl)?;
    c.steps(2);
    if k > 0 {
        let mut o = cl.clone();
        o[i][l - 1] ^= 0x80;
        c.ensure(of(&o)? != ch, "claims:same", || format!("claim {} of {} does not count", i, k))?;
        let mut o = cl.clone();
        o.remove(i);
        c.ensure(of(&o)? != ch, "claims:same", || format!("claim {} of {} does not count", i, k))?;
    }
    let mut o = cl.clone();
    o.push(vec![9; l]);
    c.ensure(of(&o)? != ch, "claims:same", || format!("claim {} of {} does not count", k, k + 1))?;
    c.outcome("ok");
    Ok(())
}
