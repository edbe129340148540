//! B02: proofs of knowledge of BBS+ signatures with selective disclosure.
use crate::util::*;
use bbs::prelude::*;
use ff_zeroize::{Field, PrimeField};
use mc::*;
use pairing_plus::bls12_381::{Fr, G1};
use pairing_plus::serdes::SerDes;
use pairing_plus::CurveProjective;
use std::collections::{BTreeMap, BTreeSet};

pub fn pm(reveal: &[usize], ms: &[M]) -> Vec<ProofMessage> {
    ms.iter().enumerate().map(|(i, m)| if reveal.contains(&i) { ProofMessage::Revealed(*m) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*m)) }).collect()
}
fn vals(pat: usize, n: usize) -> Vec<M> {
    (0..n).map(|i| msg(match pat { 0 => i % 5, 1 => 1, _ => 3 - i % 4 })).collect()
}
fn sig(pat: usize, n: usize, key: usize) -> Signature {
    let (pk, sk) = keys(key, n);
    Issuer::sign(&vals(pat, n), &sk, &pk).unwrap()
}
pub fn prove(c: &mut Ctx, reveal: &[usize], ms: &[M], s: &Signature, pk: &PublicKey, nonce: &ProofNonce) -> V<(SignatureProof, PoKOfSignature)> {
    let req = Verifier::new_proof_request(reveal, pk).unwrap();
    c.step();
    let r = guard(|| {
        let pok = Prover::commit_signature_pok(&req, &pm(reveal, ms), s).map_err(|e| e.to_string())?;
        let ch = Prover::create_challenge_hash(&[pok.clone()], None, nonce).map_err(|e| e.to_string())?;
        Prover::generate_signature_pok(pok.clone(), &ch).map(|p| (p, pok)).map_err(|e| e.to_string())
    });
    match r { Ok(Ok(x)) => Ok(x), x => violation("prove", format!("{:?}", x.map(|y| y.is_ok()))) }
}
pub fn check(c: &mut Ctx, req: &ProofRequest, p: &SignatureProof, nonce: &ProofNonce, want: Option<Vec<M>>, key: &str, what: impl Fn() -> String) -> R {
    c.step();
    match guard(|| Verifier::verify_signature_pok(req, p, nonce).ok()) {
        Err(e) => violation(format!("{}:panic", key), format!("{}: panic: {}", what(), e)),
        Ok(got) => c.ensure(got == want, key, || format!("{}: {}", what(), match (&got, &want) { (Some(_), None) => "accepted", (None, Some(_)) => "refused", _ => "other messages returned" })),
    }
}
/// What was shown against what was asked.
fn show(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(4, 5));
    let shown = c.subset("shown", n);
    let pat = c.choose("values", 3);
    c.state(&(n, &shown, pat));
    let (pk, _) = keys(0, n);
    let ms = vals(pat, n);
    let s = sig(pat, n, 0);
    let nonce = ProofNonce::hash(b"a nonce");
    let (p, pok) = prove(c, &shown, &ms, &s, &pk, &nonce)?;
    let (p2, pok2) = prove(c, &shown, &ms, &s, &pk, &nonce)?;
    c.ensure(pok.to_bytes() != pok2.to_bytes() && p.to_bytes_compressed_form() != p2.to_bytes_compressed_form(), "fresh", || "two proofs are equal".into())?;
    for asked in subsets(n) {
        let req = Verifier::new_proof_request(&asked, &pk).unwrap();
        let want = if asked == shown { Some(asked.iter().map(|i| ms[*i]).collect()) } else { None };
        // the challenge of the prover, and one made for the request
        check(c, &req, &p, &nonce, want, "asked", || format!("asked {:?}, shown {:?}", asked, shown))?;
        if asked != shown {
            let mut b = p.proof.get_bytes_for_challenge(asked.iter().copied().collect(), &pk);
            b.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
            let q = Prover::generate_signature_pok(pok.clone(), &ProofChallenge::hash(&b)).unwrap();
            check(c, &req, &q, &nonce, None, "asked:other", || format!("asked {:?}, shown {:?}, challenge as asked", asked, shown))?;
            // the same with the revealed messages relabelled to the ones asked
            if asked.len() == shown.len() {
                let mut q = q.clone();
                q.revealed_messages = asked.iter().zip(&shown).map(|(a, s)| (*a, ms[*s])).collect();
                check(c, &req, &q, &nonce, None, "asked:relabelled", || format!("asked {:?}, shown {:?}", asked, shown))?;
                q.revealed_messages = asked.iter().map(|a| (*a, ms[*a])).collect();
                check(c, &req, &q, &nonce, None, "asked:relabelled", || format!("asked {:?}, shown {:?}", asked, shown))?;
            }
        }
    }
    // other revealed values, fewer, more
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    for i in &shown {
        for j in 0..5 {
            if msg(j) == ms[*i] { continue }
            let mut q = p.clone();
            q.revealed_messages.insert(*i, msg(j));
            check(c, &req, &q, &nonce, None, "revealed:value", || format!("message {} replaced", i))?;
        }
        let mut q = p.clone();
        q.revealed_messages.remove(i);
        check(c, &req, &q, &nonce, None, "revealed:left-out", || format!("message {} left out", i))?;
        for j in 0..n + 2 {
            if shown.contains(&j) { continue }
            let mut q = p.clone();
            let m = q.revealed_messages.remove(i).unwrap();
            q.revealed_messages.insert(j, m);
            check(c, &req, &q, &nonce, None, "revealed:moved", || format!("message {} as {}", i, j))?;
        }
    }
    for j in (0..n + 2).chain(vec![usize::max_value()]) {
        if shown.contains(&j) { continue }
        let mut q = p.clone();
        q.revealed_messages.insert(j, if j < n { ms[j] } else { msg(0) });
        check(c, &req, &q, &nonce, None, "revealed:added", || format!("message {} added", j))?;
    }
    for other in 1..3 {
        check(c, &Verifier::new_proof_request(&shown, &keys(other, n).0).unwrap(), &p, &nonce, None, "key", || "another key".into())?;
        check(c, &req, &p, &ProofNonce::hash(&[other as u8]), None, "nonce", || "another nonce".into())?;
    }
    // messages that were not signed cannot be proved
    for i in 0..n {
        let mut x = ms.clone();
        x[i] = msg(if ms[i] == msg(4) { 2 } else { 4 });
        expect(c, false, "prove:other", || format!("proof with message {} replaced", i), || Prover::commit_signature_pok(&req, &pm(&shown, &x), &s).map(|_| true))?;
    }
    expect(c, false, "prove:other", || "proof with fewer messages".into(), || Prover::commit_signature_pok(&req, &pm(&shown, &ms[..n - 1]), &s).map(|_| true))?;
    expect(c, false, "prove:other", || "proof with no messages".into(), || Prover::commit_signature_pok(&req, &[], &s).map(|_| true))?;
    let mut x = pm(&shown, &ms);
    x.push(ProofMessage::Revealed(msg(0)));
    expect(c, false, "prove:other", || "proof with more messages".into(), || Prover::commit_signature_pok(&req, &x, &s).map(|_| true))?;
    // a request from which the library made another byte form
    let r2 = ProofRequest::from_bytes_compressed_form(&req.to_bytes_compressed_form()).map_err(|e| Violation { key: "bytes".into(), msg: e.to_string() })?;
    let q = SignatureProof::from_bytes_compressed_form(&p.to_bytes_compressed_form()).map_err(|e| Violation { key: "bytes".into(), msg: e.to_string() })?;
    check(c, &r2, &q, &nonce, Some(shown.iter().map(|i| ms[*i]).collect()), "bytes", || "after a round trip".into())?;
    c.outcome("ok");
    Ok(())
}
/// Cuts of an uncompressed PoKOfSignatureProof: a', a-bar, d, T1, its responses, T2, its responses.
pub fn cuts(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 96), (96, 192), (192, 288)];
    let mut o = 292;
    for _ in 0..2 {
        v.push((o, o + 96));
        let k = u32::from_be_bytes([b[o + 96], b[o + 97], b[o + 98], b[o + 99]]) as usize;
        o += 100;
        for _ in 0..k { v.push((o, o + 32)); o += 32 }
    }
    assert_eq!(o, b.len());
    v
}
fn zero_g1() -> Vec<u8> { let mut v = vec![]; G1::zero().serialize(&mut v, false).unwrap(); v }
type Two = (SignatureProof, SignatureProof, PoKOfSignature);
static TWO: Memo<(usize, Vec<usize>), Two> = Memo::new();
/// Two honest proofs, made once for all alterations of them.
fn two(c: &mut Ctx, n: usize, shown: &[usize]) -> V<Two> {
    let x = TWO.get(&(n, shown.to_vec()), || {
        let (pk, _) = keys(0, n);
        let (ms, s, nonce) = (vals(0, n), sig(0, n, 0), ProofNonce::hash(b"a nonce"));
        let (p, pok) = prove(c, shown, &ms, &s, &pk, &nonce)?;
        let (q, _) = prove(c, shown, &ms, &s, &pk, &nonce)?;
        Ok((p, q, pok))
    })?;
    Ok((*x).clone())
}
/// Every part of a proof replaced: by the part of another proof, by the neutral element, negated, plus one.
fn parts(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(2, 3));
    let shown = c.subset("shown", n);
    let (pk, _) = keys(0, n);
    let nonce = ProofNonce::hash(b"a nonce");
    let (p, q, pok) = two(c, n, &shown)?;
    let (b, b2) = (p.proof.to_bytes_uncompressed_form(), q.proof.to_bytes_uncompressed_form());
    let cs = cuts(&b);
    let pairs = c.flag("two parts");
    let i = c.choose("part", cs.len());
    let j = if pairs { c.choose("other part", cs.len()) } else { i };
    if j > i { c.outcome("same as the other order"); return Ok(()) }
    let hows = if pairs { c.q(2, 4) } else { 4 };
    let (hi, hj) = (c.choose("how", hows), if j != i { c.choose("how the other", hows) } else { 0 });
    let rehash = c.flag("challenge made anew");
    c.state(&(n, &shown, i, j, hi, hj, rehash));
    let alter = |b: &mut Vec<u8>, k: usize, how: usize| {
        let (f, t) = cs[k];
        let point = t - f == 96;
        let v = match (if how == 1 && hows == 2 { 3 } else { how }, point) {
            (0, _) => b2[f..t].to_vec(),
            (1, true) => zero_g1(),
            (1, false) => vec![0; 32],
            (2, true) => { let mut x = G1::deserialize(&mut &b[f..t], false).unwrap(); x.negate(); let mut v = vec![]; x.serialize(&mut v, false).unwrap(); v }
            (2, false) => { let mut x = fr_of(&b[f..t]); x.negate(); fr_bytes(&x) }
            (_, true) => { let mut x = G1::deserialize(&mut &b[f..t], false).unwrap(); x.add_assign(&G1::one()); let mut v = vec![]; x.serialize(&mut v, false).unwrap(); v }
            (_, false) => { let mut x = fr_of(&b[f..t]); x.add_assign(&fr(1)); fr_bytes(&x) }
        };
        b[f..t].copy_from_slice(&v);
    };
    let mut x = b.clone();
    alter(&mut x, i, hi);
    if j != i { alter(&mut x, j, hj) }
    let mut proof = PoKOfSignatureProof::from_bytes_uncompressed_form(&x).unwrap();
    if rehash {
        // the responses are computed for the challenge of the altered commitments, then altered the same way
        let set: BTreeSet<usize> = shown.iter().copied().collect();
        let mut hb = proof.get_bytes_for_challenge(set, &pk);
        hb.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
        let fresh = Prover::generate_signature_pok(pok, &ProofChallenge::hash(&hb)).unwrap().proof.to_bytes_uncompressed_form();
        let mut y = fresh;
        alter(&mut y, i, hi);
        if j != i { alter(&mut y, j, hj) }
        proof = PoKOfSignatureProof::from_bytes_uncompressed_form(&y).unwrap();
    }
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    let bad = SignatureProof { revealed_messages: p.revealed_messages.clone(), proof };
    check(c, &req, &bad, &nonce, None, "parts", || format!("parts {} and {} altered ({}, {})", i, j, hi, hj))?;
    c.outcome("refused");
    Ok(())
}
/// A commitment made with a revealed message's generator lets that message be chosen after the challenge.
fn forge(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", 3);
    let shown = c.subset("shown", n);
    let over = c.choose("over", 4);
    c.state(&(n, &shown, over));
    let (pk, _) = keys(0, n);
    let ms = vals(0, n);
    let s = sig(0, n, 0);
    let nonce = ProofNonce::hash(b"a nonce");
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    let pok = Prover::commit_signature_pok(&req, &pm(&shown, &ms), &s).unwrap();
    // generator of a revealed message, h0 or g1 added to the last commitment
    let base: G1 = match over {
        0 => if shown.is_empty() { c.outcome("nothing shown"); return Ok(()) } else { *pk.h[shown[0]].as_ref() },
        1 => if shown.len() < 2 { c.outcome("nothing shown"); return Ok(()) } else { *pk.h[shown[1]].as_ref() },
        2 => *pk.h0.as_ref(),
        _ => G1::one(),
    };
    let mut bytes = pok.to_bytes();
    let l = bytes.len();
    let mut t = G1::deserialize(&mut &bytes[l - 96..], false).unwrap();
    let x = fr(7);
    let mut e = base;
    e.mul_assign(x);
    t.add_assign(&e);
    let mut tb = vec![];
    t.serialize(&mut tb, false).unwrap();
    bytes[l - 96..].copy_from_slice(&tb);
    let mut hashed = bytes.clone();
    hashed.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
    let ch = ProofChallenge::hash(&hashed);
    let mut p = Prover::generate_signature_pok(pok, &ch).unwrap();
    let mut pb = p.proof.to_bytes_uncompressed_form();
    let cs = cuts(&pb);
    let at = cs.iter().filter(|x| x.1 - x.0 == 96).last().unwrap().0;
    pb[at..at + 96].copy_from_slice(&tb);
    let mut diff = ch.as_ref().inverse().unwrap();
    diff.mul_assign(&x);
    if over < 2 {
        let i = shown[over];
        let mut m = *ms[i].as_ref();
        m.sub_assign(&diff);
        p.revealed_messages.insert(i, M::from(m));
    } else if over == 2 {
        // a response for h0 absorbs it: this is the same statement, honestly proved
        let r = cs.iter().position(|x| x.0 == at).unwrap() + 2;
        let (f, t) = cs[r];
        let mut y = fr_of(&pb[f..t]);
        y.add_assign(&x);
        pb[f..t].copy_from_slice(&fr_bytes(&y));
    }
    p.proof = PoKOfSignatureProof::from_bytes_uncompressed_form(&pb).unwrap();
    let want = if over == 2 { Some(shown.iter().map(|i| ms[*i]).collect()) } else { None };
    let got = match guard(|| Verifier::verify_signature_pok(&req, &p, &nonce).ok()) { Ok(x) => x, Err(e) => return violation("forge:panic", e) };
    c.step();
    if over < 2 && got.is_some() { c.soft("forge:unbound-revealed", format!("{} messages, shown {:?}: a proof reveals an unsigned value for message {}", n, shown, shown[over])); c.outcome("forged"); return Ok(()) }
    c.ensure(got == want, "forge:other", || format!("over {}: {}", over, got.is_some()))?;
    c.outcome(if want.is_some() { "accepted" } else { "refused" });
    Ok(())
}
/// Two proofs under one challenge; equality of hidden messages by a common blinding.
fn linked(c: &mut Ctx) -> R {
    let (n1, n2) = (1 + c.choose("messages of the first", c.q(2, 3)), 1 + c.choose("messages of the second", c.q(2, 3)));
    let (i, j) = (c.choose("first's message", n1), c.choose("second's message", n2));
    let equal = c.flag("equal");
    let samekey = c.flag("same key");
    let show1 = c.subset("first shows", n1);
    if show1.contains(&i) { c.outcome("the common message is shown"); return Ok(()) }
    c.state(&(n1, n2, i, j, equal, samekey, &show1));
    let (pk1, sk1) = keys(0, n1);
    let (pk2, sk2) = keys(if samekey { 0 } else { 1 }, n2);
    let mut m1: Vec<M> = (0..n1).map(|k| msg(20 + k)).collect();
    let mut m2: Vec<M> = (0..n2).map(|k| msg(30 + k)).collect();
    m1[i] = msg(40);
    m2[j] = msg(if equal { 40 } else { 41 });
    let s1 = Issuer::sign(&m1, &sk1, &pk1).unwrap();
    let s2 = Issuer::sign(&m2, &sk2, &pk2).unwrap();
    let blinding = ProofNonce::hash(b"common blinding");
    let mut a = pm(&show1, &m1);
    a[i] = ProofMessage::Hidden(HiddenMessage::ExternalBlinding(m1[i], blinding));
    let mut b = pm(&[], &m2);
    b[j] = ProofMessage::Hidden(HiddenMessage::ExternalBlinding(m2[j], blinding));
    let (r1, r2) = (Verifier::new_proof_request(&show1, &pk1).unwrap(), Verifier::new_proof_request(&[], &pk2).unwrap());
    let k1 = Prover::commit_signature_pok(&r1, &a, &s1).unwrap();
    let k2 = Prover::commit_signature_pok(&r2, &b, &s2).unwrap();
    let nonce = ProofNonce::hash(b"common nonce");
    let claims: [&[u8]; 2] = [b"claim", b"another"];
    let cl = c.flag("claims");
    let claims: Option<&[&[u8]]> = if cl { Some(&claims) } else { None };
    let ch = Prover::create_challenge_hash(&[k1.clone(), k2.clone()], claims, &nonce).unwrap();
    let p1 = Prover::generate_signature_pok(k1, &ch).unwrap();
    let p2 = Prover::generate_signature_pok(k2, &ch).unwrap();
    let all = [p1.clone(), p2.clone()];
    let reqs = [r1.clone(), r2.clone()];
    let vch = Verifier::create_challenge_hash(&all, &reqs, &nonce, claims).unwrap();
    c.ensure(ch == vch, "challenge", || "prover and verifier compute another challenge".into())?;
    let ok = |p: &SignatureProof, r: &ProofRequest, ch: &ProofChallenge| p.proof.verify(&r.verification_key, &p.revealed_messages, ch).map(|s| s.is_valid());
    expect(c, true, "linked", || "first".into(), || ok(&p1, &r1, &vch))?;
    expect(c, true, "linked", || "second".into(), || ok(&p2, &r2, &vch))?;
    // the challenge depends on everything
    let others: [(&str, ProofChallenge); 7] = [
        ("order", Verifier::create_challenge_hash(&[p2.clone(), p1.clone()], &[r2.clone(), r1.clone()], &nonce, claims).unwrap()),
        ("nonce", Verifier::create_challenge_hash(&all, &reqs, &ProofNonce::hash(b"other"), claims).unwrap()),
        ("claims", Verifier::create_challenge_hash(&all, &reqs, &nonce, Some(&[b"other claim"])).unwrap()),
        ("claims", Verifier::create_challenge_hash(&all, &reqs, &nonce, if cl { None } else { Some(&[b"claim"]) }).unwrap()),
        ("first only", Verifier::create_challenge_hash(&all[..1], &reqs[..1], &nonce, claims).unwrap()),
        ("key", Verifier::create_challenge_hash(&all, &[Verifier::new_proof_request(&show1, &keys(2, n1).0).unwrap(), r2.clone()], &nonce, claims).unwrap()),
        ("none", Verifier::create_challenge_hash(&[], &[], &nonce, claims).unwrap()),
    ];
    for (what, o) in others.iter() {
        c.ensure(*o != ch, "challenge:same", || format!("the challenge does not depend on the {}", what))?;
        expect(c, false, "linked:challenge", || what.to_string(), || ok(&p1, &r1, o))?;
        expect(c, false, "linked:challenge", || what.to_string(), || ok(&p2, &r2, o))?;
    }
    if show1.is_empty() {
        for x in 0..n1 { for y in 0..n2 {
            let (u, v) = (guard(|| p1.proof.get_resp_for_message(x).ok()), guard(|| p2.proof.get_resp_for_message(y).ok()));
            let (u, v) = match (u, v) { (Ok(Some(u)), Ok(Some(v))) => (u, v), _ => return violation("response", format!("no response for messages {} and {}", x, y)) };
            c.ensure((u == v) == (equal && x == i && y == j), "response", || format!("responses of messages {} and {}: {}", x, y, u == v))?;
        } }
    }
    for x in vec![n1 - show1.len(), n1, n1 + 1, usize::max_value() - 2, usize::max_value()] {
        expect(c, false, "response:outside", || format!("response {}", x), || p1.proof.get_resp_for_message(x).map(|_| true))?;
    }
    c.outcome(if equal { "equal" } else { "different" });
    Ok(())
}
/// Proofs with fewer or more responses, or none.
fn lengths(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", 2);
    let shown = c.subset("shown", n);
    let (l1, l2) = (c.choose("first responses", 5), c.choose("second responses", 6));
    c.state(&(n, &shown, l1, l2));
    let (pk, _) = keys(0, n);
    let ms = vals(0, n);
    let nonce = ProofNonce::hash(b"a nonce");
    let (p, _) = prove(c, &shown, &ms, &sig(0, n, 0), &pk, &nonce)?;
    let b = p.proof.to_bytes_uncompressed_form();
    let cs = cuts(&b);
    let second = cs.iter().rposition(|x| x.1 - x.0 == 96).unwrap();
    let mut x = b[..288].to_vec();
    let part = |from: usize, have: usize, want: usize| {
        let mut v = b[cs[from].0..cs[from].1].to_vec();
        v.extend_from_slice(&(want as u32).to_be_bytes());
        for k in 0..want { if k < have { v.extend_from_slice(&b[cs[from + 1 + k].0..cs[from + 1 + k].1]) } else { v.extend_from_slice(&[0; 32]) } }
        v
    };
    let (one, two) = (part(3, 2, l1), part(second, cs.len() - second - 1, l2));
    x.extend_from_slice(&(one.len() as u32).to_be_bytes());
    x.extend(one);
    x.extend(two);
    let proof = match guard(|| PoKOfSignatureProof::from_bytes_uncompressed_form(&x)) { Ok(Ok(p)) => p, Ok(Err(_)) => { c.outcome("refused"); return Ok(()) } Err(e) => return violation("lengths:panic", e) };
    let honest = x == b;
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    for m in 0..5 {
        // no answer is expected of a short proof, only that there is no panic
        verdict(c, "lengths:response", || format!("{} responses, message {}", l2, m), || proof.get_resp_for_message(m).map(|_| true))?;
    }
    let q = SignatureProof { revealed_messages: p.revealed_messages.clone(), proof };
    check(c, &req, &q, &nonce, if honest { Some(shown.iter().map(|i| ms[*i]).collect()) } else { None }, "lengths", || format!("{} and {} responses", l1, l2))?;
    c.outcome(if honest { "accepted" } else { "refused" });
    Ok(())
}
/// No signature and nothing known: with responses in excess of the bases, whoever adds up pairs of them leaves out the
/// challenge, and every choice of responses satisfies that.
fn dropped(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(3, 4));
    let shown = c.subset("shown", n);
    let more = 1 + c.choose("more responses", 3);
    let front = c.flag("in front");
    let claim = c.flag("another value");
    c.state(&(n, &shown, more, front, claim));
    let (pk, _) = keys(0, n);
    let nonce = ProofNonce::hash(b"a nonce");
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    // a pair for which the pairing holds is in every proof ever seen
    let (seen, _, _) = two(c, n, &shown)?;
    let b = seen.proof.to_bytes_uncompressed_form();
    let at = |i: usize| -> G1 { G1::deserialize(&mut &b[96 * i..96 * i + 96], false).unwrap() };
    let (a_prime, d) = (at(0), at(2));
    let h0 = *pk.h0.as_ref();
    let mut second = vec![d, h0];
    second.extend((0..n).filter(|i| !shown.contains(i)).map(|i| *pk.h[i].as_ref()));
    let mut x = b[..288].to_vec();
    let part = |bases: &[G1], first: u64| {
        let mut t = G1::zero();
        let mut v = vec![];
        for (i, g) in bases.iter().enumerate() {
            let r = fr(first + i as u64);
            let mut e = *g;
            e.mul_assign(r);
            t.add_assign(&e);
            v.push(fr_bytes(&r));
        }
        for _ in 0..more { if front { v.insert(0, fr_bytes(&Fr::zero())) } else { v.push(fr_bytes(&Fr::zero())) } }
        let mut o = vec![];
        t.serialize(&mut o, false).unwrap();
        o.extend_from_slice(&(v.len() as u32).to_be_bytes());
        for y in v { o.extend(y) }
        o
    };
    let (one, two) = (part(&[a_prime, h0], 11), part(&second, 23));
    x.extend_from_slice(&(one.len() as u32).to_be_bytes());
    x.extend(one);
    x.extend(two);
    let proof = match guard(|| PoKOfSignatureProof::from_bytes_uncompressed_form(&x)) { Ok(Ok(p)) => p, Ok(Err(_)) => { c.outcome("refused"); return Ok(()) } Err(e) => return violation("dropped:panic", e) };
    let mut revealed = seen.revealed_messages.clone();
    if claim { for v in revealed.values_mut() { *v = msg(77) } }
    let q = SignatureProof { revealed_messages: revealed, proof };
    check(c, &req, &q, &nonce, None, "dropped", || format!("{} messages, shown {:?}, {} responses too many", n, shown, more))?;
    for ch in vec![ProofChallenge::hash(b"any"), ProofChallenge::from(fr(0))] {
        expect(c, false, "dropped", || format!("{} messages, shown {:?}, {} responses too many, any challenge", n, shown, more), || q.proof.verify(&pk, &q.revealed_messages, &ch).map(|s| s.is_valid()))?;
    }
    c.outcome("refused");
    Ok(())
}
/// The vector-commitment proof by itself.
fn vc(c: &mut Ctx) -> R {
    let n = 1 + c.choose("bases", 3);
    let v: Vec<usize> = (0..n).map(|i| c.choose(["first secret", "second secret", "third secret"][i], 3)).collect();
    let with: Vec<usize> = c.subset("blindings given", n);
    let alter = c.choose("altered", 9);
    c.state(&(n, &v, &with, alter));
    let (pk, _) = keys(0, 4);
    let secrets: Vec<M> = v.iter().map(|x| msg([0, 1, 3][*x])).collect();
    let mut bases: Vec<GeneratorG1> = pk.h[..n].to_vec();
    let mut p = ProverCommittingG1::new();
    for i in 0..n {
        let k = if with.contains(&i) { p.commit_with(&bases[i], &M::hash(&[i as u8])) } else { p.commit(&bases[i]) };
        c.same(k, i, "vc:index", "index of the base")?;
        let (b, r) = p.get_index(i).unwrap();
        c.ensure(b == bases[i] && (!with.contains(&i) || r == M::hash(&[i as u8])), "vc:index", || "another base or blinding".into())?;
    }
    expect(c, false, "vc:index", || "outside".into(), || p.get_index(n).map(|_| true))?;
    let done = p.finish();
    let mut commitment = Commitment::new(bases.iter().map(|b| *b.as_ref()).collect::<Vec<_>>(), secrets.iter().map(|s| *s.as_ref()).collect::<Vec<_>>());
    let mut ch = done.gen_challenge(&commitment.to_bytes_uncompressed_form()[..]);
    for k in 0..n + 2 {
        if k == n { continue }
        let mut s = secrets.clone();
        s.resize(k, msg(0));
        expect(c, false, "vc:prove", || format!("{} secrets for {} bases", k, n), || done.clone().gen_proof(&ch, &s).map(|_| true))?;
    }
    let mut proof = done.clone().gen_proof(&ch, &secrets).unwrap();
    match alter {
        1 => { let mut x = *commitment.as_ref(); x.add_assign(bases[0].as_ref()); commitment = Commitment::from(x) }
        2 => { let mut x = *ch.as_ref(); x.add_assign(&fr(1)); ch = ProofChallenge::from(x) }
        3 => bases[n - 1] = pk.h[3],
        4 => { bases.pop(); }
        5 => bases.push(pk.h[3]),
        6 => { let mut b = proof.to_bytes_compressed_form(); let l = b.len(); let mut x = fr_of(&b[l - 32..]); x.negate(); b[l - 32..].copy_from_slice(&fr_bytes(&x)); proof = ProofG1::from_bytes_compressed_form(&b).unwrap() }
        8 => {
            // a response too many and the challenge left out, for another commitment
            let mut x = *commitment.as_ref();
            x.add_assign(pk.h[3].as_ref());
            commitment = Commitment::from(x);
            let mut b = proof.to_bytes_compressed_form();
            let mut t = G1::zero();
            for (i, g) in bases.iter().enumerate() { let mut e = *g.as_ref(); e.mul_assign(fr_of(&b[52 + 32 * i..84 + 32 * i])); t.add_assign(&e); }
            let mut tb = vec![];
            t.serialize(&mut tb, true).unwrap();
            b[..48].copy_from_slice(&tb);
            b[51] += 1;
            b.extend(fr_bytes(&fr(0)));
            proof = ProofG1::from_bytes_compressed_form(&b).unwrap();
            // the same for the form that makes up its own challenge
            let mut h = vec![];
            for g in &bases { g.as_ref().serialize(&mut h, false).unwrap() }
            t.serialize(&mut h, false).unwrap();
            commitment.as_ref().serialize(&mut h, false).unwrap();
            h.extend_from_slice(b"nonce");
            let own = ProofChallenge::hash(&h);
            expect(c, false, "vc:complete", || "a response too many".into(), || proof.verify_complete_proof(&bases, &commitment, &own, b"nonce"))?;
        }
        7 => { let mut s = secrets.clone(); s[0] = msg(2); proof = done.clone().gen_proof(&ch, &s).unwrap() }
        _ => {}
    }
    // nothing is committed to: the challenge does not matter
    let same = alter == 0 || alter == 2 && v.iter().all(|x| *x == 1);
    expect(c, same, "vc:verify", || format!("alteration {}", alter), || proof.verify(&bases, &commitment, &ch))?;
    // the complete form checks the challenge too
    let nonce = b"nonce";
    let mut extra = commitment.to_bytes_uncompressed_form().to_vec();
    extra.extend_from_slice(nonce);
    if alter == 0 {
        let ch2 = done.gen_challenge(&extra);
        let q = done.gen_proof(&ch2, &secrets).unwrap();
        expect(c, true, "vc:complete", || "complete".into(), || q.verify_complete_proof(&bases, &commitment, &ch2, nonce))?;
        expect(c, false, "vc:complete", || "another nonce".into(), || q.verify_complete_proof(&bases, &commitment, &ch2, b"other"))?;
        expect(c, false, "vc:complete", || "another challenge".into(), || q.verify_complete_proof(&bases, &commitment, &ch, nonce))?;
        expect(c, false, "vc:complete", || "a proof for another challenge".into(), || proof.verify_complete_proof(&bases, &commitment, &ch, nonce))?;
        expect(c, false, "vc:complete", || "fewer bases".into(), || q.verify_complete_proof(&bases[..n - 1], &commitment, &ch2, nonce))?;
    }
    c.outcome(if same { "accepted" } else { "refused" });
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    let _ = (BTreeMap::<u8, u8>::new(), pairing_plus::bls12_381::Fr::from_repr(Default::default()));
    Check {
        rule: "An execution is one proof (or a pair under one challenge), presented as it is or altered, to every verifier in the scope. A state is one combination of choices, a transition one verification.".into(),
        assumptions: vec!["the hash is a random oracle; group and pairing arithmetic is pairing-plus's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("show", "1..4 (5) messages x all shown sets x 3 value patterns; all asked sets (honest challenge or the request's), every revealed message replaced, moved, left out, added", show),
            Scenario::new("parts", "1..2 (3) messages x all shown sets x every part x 4, every pair of parts x 2 x 2 (4 x 4) alterations, with the old or a new challenge", parts),
            Scenario::new("forge", "1..3 messages x all shown sets x 4 generators in the commitment", forge),
            Scenario::new("linked", "two proofs of 1..2 (3) messages x all pairs of positions x equal or not x keys x shown sets; 7 other challenges", linked),
            Scenario::new("lengths", "1..2 messages x shown sets x 0..4 and 0..5 responses", lengths),
            Scenario::new("dropped", "1..3 (4) messages x all shown sets x 1..3 responses too many, at either end, x shown values signed or not: simulated without the challenge", dropped),
            Scenario::new("copied", "1..2 (3) messages x all shown sets x every element or response in the place of every other of its kind, or exchanged, with the old or a new challenge, with another value shown or not", crate::large::copied),
            Scenario::new("hiding", "10 sizes x 8 shown sets x equal messages or not x 3 proofs of one or of 3 signatures: all blindings, brought out by two challenges, are different", crate::large::hiding),
            Scenario::new("large", "8..257 (1025) messages x 8 shown sets; changed at the edges and around the powers of two", crate::large::show),
            Scenario::new("claims", "0..7 (19) claims of 4 lengths: each changed, left out, one more", crate::large::claims),
            Scenario::new("vc", "1..3 bases x 3 secrets each x given blindings x 8 alterations", vc),
        ],
    }
}
