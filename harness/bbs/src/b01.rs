//! B01: BBS+ signatures, plain and blind.
use crate::util::*;
use bbs::prelude::*;
use ff_zeroize::Field;
use mc::*;
use pairing_plus::bls12_381::G1;
use pairing_plus::serdes::SerDes;
use pairing_plus::CurveProjective;
use std::collections::BTreeMap;

fn variants(c: &mut Ctx, s: &Signature, ms: &[M], pk: &PublicKey, key: &str) -> R {
    let n = ms.len();
    for i in 0..n {
        for j in 0..6 {
            if msg(j) == ms[i] { continue }
            let mut x = ms.to_vec();
            x[i] = msg(j);
            expect(c, false, key, || format!("message {} replaced", i), || s.verify(&x, pk))?;
        }
        for j in 0..i {
            let mut x = ms.to_vec();
            x.swap(i, j);
            expect(c, ms[i] == ms[j], key, || format!("messages {} and {} exchanged", i, j), || s.verify(&x, pk))?;
        }
    }
    expect(c, false, key, || "one message fewer".into(), || s.verify(&ms[..n - 1], pk))?;
    let mut x = ms.to_vec();
    x.push(msg(1));
    expect(c, false, key, || "one message more".into(), || s.verify(&x, pk))?;
    expect(c, false, key, || "no messages".into(), || s.verify(&[], pk))?;
    for other in 1..3 {
        expect(c, false, key, || "another key".into(), || s.verify(ms, &keys(other, n).0))?;
        let mut p = pk.clone();
        p.w = keys(other, n).0.w;
        expect(c, false, key, || "another key's w".into(), || s.verify(ms, &p))?;
        let mut p = pk.clone();
        p.h0 = keys(other, n).0.h0;
        expect(c, false, key, || "another key's h0".into(), || s.verify(ms, &p))?;
        for i in 0..n {
            let mut p = pk.clone();
            p.h[i] = keys(other, n).0.h[i];
            // the generator of the message zero does not count
            expect(c, ms[i] == msg(1), key, || format!("another key's h{}", i), || s.verify(ms, &p))?;
        }
    }
    Ok(())
}
/// The four numbers of which one of two signatures is composed.
fn mixed(c: &mut Ctx, a: &Signature, b: &Signature, ms: &[M], pk: &PublicKey, key: &str) -> R {
    let (x, y) = (a.to_bytes_compressed_form(), b.to_bytes_compressed_form());
    let zero = { let mut z = [0u8; 112]; z[0] = 0xc0; z };
    let cuts = [0..48, 48..80, 80..112];
    for from in 0..27 {
        let mut v = [0u8; 112];
        let w = [from % 3, from / 3 % 3, from / 9];
        for (i, r) in cuts.iter().enumerate() { v[r.clone()].copy_from_slice(&[&x, &y, &zero][w[i]][r.clone()]) }
        let s = Signature::from(v);
        let want = v == x || v == y;
        expect(c, want, key, || format!("a signature with its parts taken from {:?}", w), || s.verify(ms, pk))?;
    }
    Ok(())
}
fn sign(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(4, 5));
    let pat = c.choose("values", c.q(8, 12));
    let kind = c.choose("key", 3);
    let ms: Vec<M> = (0..n).map(|i| msg(if pat < 6 { (i + pat) % 6 } else { [1, 3, 0, 2, 4, 5][pat - 6] })).collect();
    c.state(&(n, pat, kind));
    let (pk, sk) = match kind {
        0 => keys(0, n),
        1 => Issuer::new_keys(n).map_err(|e| Violation { key: "generate".into(), msg: e.to_string() })?,
        _ => {
            let (_, sk) = keys(0, n);
            let (d, s2) = Issuer::new_short_keys(Some(KeyGenOption::FromSecretKey(sk.clone()))).unwrap();
            c.ensure(s2 == sk && d.to_public_key(n).unwrap() == keys(0, n).0, "short-key", || "the same secret gives another key".into())?;
            (d.to_public_key(n).unwrap(), s2)
        }
    };
    let s = match guard(|| Issuer::sign(&ms, &sk, &pk)) { Ok(Ok(s)) => s, x => return violation("sign", format!("{:?}", x.map(|y| y.is_ok()))) };
    let t = Issuer::sign(&ms, &sk, &pk).unwrap();
    c.ensure(s != t, "fresh", || "two signatures are equal".into())?;
    let (x, y) = (s.to_bytes_compressed_form(), t.to_bytes_compressed_form());
    let parts = [&x[48..80], &x[80..112], &y[48..80], &y[80..112]];
    c.ensure((0..4).all(|i| (0..i).all(|j| parts[i] != parts[j])), "fresh", || "the random numbers of two signatures are not all different".into())?;
    expect(c, true, "verify", || "a signature".into(), || s.verify(&ms, &pk))?;
    if kind == 0 || c.thorough() {
        variants(c, &s, &ms, &pk, "verify")?;
        mixed(c, &s, &t, &ms, &pk, "mixed")?;
        let mut longer = ms.clone();
        longer.push(msg(0));
        expect(c, false, "sign:long", || "more messages than generators signed".into(), || Issuer::sign(&longer, &sk, &pk).map(|_| true))?;
        // whatever is signed can be verified
        let short = verdict(c, "sign:short", || "fewer messages than generators".into(), || Issuer::sign(&ms[..n - 1], &sk, &pk).map(|_| true))?;
        if short { c.outcome("fewer messages signed") }
        expect(c, false, "sign:null", || "signed with the key zero".into(), || Issuer::sign(&ms, &SecretKey::default(), &pk).map(|_| true))?;
        for k in 0..n + 2 {
            let mut p = pk.clone();
            match k { 0 => p.h0 = GeneratorG1::default(), 1 => p.w = GeneratorG2::default(), _ => p.h[k - 2] = GeneratorG1::default() }
            expect(c, false, "key:neutral", || format!("generator {} neutral", k), || Issuer::sign(&ms, &sk, &p).map(|_| true))?;
            expect(c, false, "key:neutral", || format!("generator {} neutral", k), || s.verify(&ms, &p))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Keys: a function of seed and size; generators distinct within a key and between keys.
fn derive(c: &mut Ctx) -> R {
    let n = c.choose("messages", c.q(17, 65));
    let s = c.choose("seed", 4);
    c.state(&(n, s));
    let seed = [&b""[..], b"\0", b"seed", b"seed\0"][s].to_vec();
    let (d, sk) = Issuer::new_short_keys(Some(KeyGenOption::UseSeed(seed.clone()))).unwrap();
    let (e, sl) = DeterministicPublicKey::new(Some(KeyGenOption::UseSeed(seed.clone()))).unwrap();
    c.ensure(d == e && sk == sl && sk == SecretKey::hash(&seed), "seed", || "the same seed gives another key".into())?;
    for o in 0..4 {
        if o == s { continue }
        let (_, x) = Issuer::new_short_keys(Some(KeyGenOption::UseSeed([&b""[..], b"\0", b"seed", b"seed\0"][o].to_vec()))).unwrap();
        c.ensure(x != sk, "seed:equal", || format!("seeds {} and {} give the same key", s, o))?;
    }
    let r = guard(|| d.to_public_key(n).ok());
    let g = guard(|| Issuer::new_keys(n).ok());
    let (p, (q, _)) = match (r, g) {
        (Ok(None), Ok(None)) if n == 0 => { c.outcome("no key for no message"); return Ok(()) }
        (Ok(Some(p)), Ok(Some(q))) if n > 0 => (p, q),
        _ => return violation("keys:size", format!("{} messages", n)),
    };
    c.ensure(p == e.to_public_key(n).unwrap() && p.message_count() == n && q.message_count() == n, "derive", || "the derived key differs".into())?;
    let mut all = vec![];
    for k in &[&p, &q] { all.push(k.h0.to_bytes_compressed_form()); all.extend(k.h.iter().map(|h| h.to_bytes_compressed_form())) }
    if n > 1 { let k = d.to_public_key(n - 1).unwrap(); all.push(k.h0.to_bytes_compressed_form()); all.extend(k.h.iter().map(|h| h.to_bytes_compressed_form())) }
    let l = all.len();
    all.sort();
    all.dedup();
    c.ensure(l == all.len(), "generators", || "a generator occurs twice".into())?;
    c.ensure(p.validate().is_ok() && q.validate().is_ok(), "generators", || "a generator is neutral".into())?;
    let (a, x) = Issuer::new_short_keys(None).unwrap();
    let (b, y) = Issuer::new_short_keys(None).unwrap();
    c.ensure(a != b && x != y, "random", || "two random keys are equal".into())?;
    c.steps(6);
    c.outcome("ok");
    Ok(())
}
/// Blind issuance: the holder's and the issuer's part must together be all messages, once each.
fn blind(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(3, 4));
    let hidden = c.subset("hidden", n);
    // per message the issuer knows it (1), knows another value (2), or not at all (0)
    let known: Vec<usize> = (0..n).map(|i| c.choose(["known 0", "known 1", "known 2", "known 3"][i], 3)).collect();
    let extra = c.choose("index outside", 4);
    let what = c.choose("altered", 11);
    if what > 0 && (extra > 0 || (0..n).any(|i| known[i] != !hidden.contains(&i) as usize)) { c.outcome("not combined"); return Ok(()) }
    c.state(&(n, &hidden, &known, extra, what));
    let (pk, sk) = keys(0, n);
    let nonce = ProofNonce::hash(b"nonce");
    let ms: Vec<M> = (0..n).map(|i| msg([0, 1, 2, 3][i])).collect();
    let h: BTreeMap<usize, M> = hidden.iter().map(|i| (*i, ms[*i])).collect();
    let (mut ctx, blinding) = match guard(|| Prover::new_blind_signature_context(&pk, &h, &nonce)) {
        Ok(Ok(x)) => x,
        x => return violation("blind:request", format!("{:?}", x.map(|y| y.is_ok()))),
    };
    let (other, ob) = Prover::new_blind_signature_context(&pk, &h, &nonce).unwrap();
    c.ensure(ctx.commitment != other.commitment && blinding != ob, "blind:fresh", || "two requests have the same commitment".into())?;
    let mut k: BTreeMap<usize, M> = BTreeMap::new();
    for i in 0..n { match known[i] { 0 => {}, 1 => { k.insert(i, ms[i]); } _ => { k.insert(i, msg(5)); } } }
    match extra { 1 => { k.insert(n, msg(0)); } 2 => { k.insert(n + 1, msg(0)); } 3 => { k.insert(usize::max_value(), msg(0)); } _ => {} }
    let mut rnonce = nonce;
    let mut rk = (pk.clone(), sk.clone());
    let raw = ctx.proof_of_hidden_messages.to_bytes_uncompressed_form();
    let orw = other.proof_of_hidden_messages.to_bytes_uncompressed_form();
    match what {
        1 => ctx.commitment = other.commitment,
        2 => ctx.challenge_hash = other.challenge_hash,
        3 => ctx.proof_of_hidden_messages = other.proof_of_hidden_messages.clone(),
        4 => rnonce = ProofNonce::hash(b"other nonce"),
        5 => rk = keys(1, n),
        6 => { ctx.commitment = other.commitment; ctx.challenge_hash = other.challenge_hash }
        7 => { let mut b = raw.clone(); b[..96].copy_from_slice(&orw[..96]); ctx.proof_of_hidden_messages = ProofG1::from_bytes_uncompressed_form(&b).unwrap() }
        8 => { let mut b = raw.clone(); b[100..132].copy_from_slice(&orw[100..132]); ctx.proof_of_hidden_messages = ProofG1::from_bytes_uncompressed_form(&b).unwrap() }
        10 => {
            // nothing known about the commitment: a response too many, and the challenge left out
            let mut t = G1::zero();
            let mut hashed = vec![];
            let mut b = vec![];
            let bases: Vec<G1> = std::iter::once(*pk.h0.as_ref()).chain(hidden.iter().map(|i| *pk.h[*i].as_ref())).collect();
            for (i, g) in bases.iter().enumerate() {
                let r = fr(31 + i as u64);
                let mut e = *g;
                e.mul_assign(r);
                t.add_assign(&e);
                b.extend(fr_bytes(&r));
                g.serialize(&mut hashed, false).unwrap();
            }
            let mut strange = *pk.h0.as_ref();
            strange.add_assign(&G1::one());
            ctx.commitment = Commitment::from(strange);
            t.serialize(&mut hashed, false).unwrap();
            strange.serialize(&mut hashed, false).unwrap();
            hashed.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
            ctx.challenge_hash = ProofChallenge::hash(&hashed);
            let mut p = vec![];
            t.serialize(&mut p, false).unwrap();
            p.extend_from_slice(&(bases.len() as u32 + 1).to_be_bytes());
            p.extend(b);
            p.extend(fr_bytes(&fr(0)));
            ctx.proof_of_hidden_messages = ProofG1::from_bytes_uncompressed_form(&p).unwrap();
        }
        9 => { let mut b = raw.clone(); let l = b.len(); b[99] -= 1; b.truncate(l - 32); ctx.proof_of_hidden_messages = ProofG1::from_bytes_uncompressed_form(&b).unwrap() }
        _ => {}
    }
    let partition = extra == 0 && (0..n).all(|i| hidden.contains(&i) != (known[i] > 0));
    let set: std::collections::BTreeSet<usize> = k.keys().copied().collect();
    // a list that names an index the key lacks may be refused when signing only
    if extra == 0 { expect(c, partition && what == 0, "blind:context", || format!("hidden {:?}, known {:?}", hidden, set), || ctx.verify(&set, &rk.0, &rnonce))?; }
    let r = match guard(|| Issuer::blind_sign(&ctx, &k, &rk.1, &rk.0, &rnonce)) {
        Err(p) => return violation("blind:panic", format!("hidden {:?}, known {:?}: panic: {}", hidden, set, p)),
        Ok(r) => r,
    };
    c.step();
    c.ensure(r.is_ok() == (partition && what == 0), "blind:sign", || format!("hidden {:?}, known {:?}, altered {}: {}", hidden, set, what, if r.is_ok() { "signed" } else { "refused" }))?;
    let d = guard(|| BlindSignature::new(&ctx.commitment, &k, &rk.1, &rk.0).is_ok());
    c.ensure(d.is_ok(), "blind:panic", || format!("BlindSignature::new with {:?} of {} panics", set, n))?;
    let b = match r { Ok(b) => b, Err(_) => { c.outcome("refused"); return Ok(()) } };
    let signed: Vec<M> = (0..n).map(|i| if known[i] == 2 { msg(5) } else { ms[i] }).collect();
    let s = match guard(|| Prover::complete_signature(&pk, &signed, &b, &blinding)) { Ok(Ok(s)) => s, _ => return violation("blind:complete", "the blind signature cannot be completed") };
    expect(c, true, "blind:verify", || "unblinded".into(), || s.verify(&signed, &pk))?;
    c.ensure(b.to_unblinded(&blinding) == s, "blind:complete", || "to_unblinded differs".into())?;
    expect(c, false, "blind:complete", || "with another blinding".into(), || Prover::complete_signature(&pk, &signed, &b, &ob).map(|_| true))?;
    expect(c, false, "blind:complete", || "under another key".into(), || Prover::complete_signature(&keys(1, n).0, &signed, &b, &blinding).map(|_| true))?;
    expect(c, false, "blind:complete", || "fewer messages".into(), || Prover::complete_signature(&pk, &signed[..n - 1], &b, &blinding).map(|_| true))?;
    let mut z = SignatureBlinding::default();
    expect(c, false, "blind:complete", || "still blinded".into(), || b.to_unblinded(&z).verify(&signed, &pk))?;
    z = blinding;
    for i in 0..n {
        let mut x = signed.clone();
        x[i] = msg(if signed[i] == msg(4) { 0 } else { 4 });
        expect(c, false, "blind:complete", || format!("message {} replaced", i), || Prover::complete_signature(&pk, &x, &b, &z).map(|_| true))?;
    }
    variants(c, &s, &signed, &pk, "blind:variants")?;
    c.outcome("signed");
    Ok(())
}
/// Requests that name messages the key has no generator for.
fn outside(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", 3);
    let i = c.pick("index", &[0, n - 1, n, n + 1, 1000, usize::max_value()]);
    let with = c.flag("with others");
    c.state(&(n, i, with));
    let (pk, _) = keys(0, n);
    let mut h = BTreeMap::new();
    if with { for j in 0..n { h.insert(j, msg(j)); } }
    h.insert(i, msg(0));
    expect(c, i < n, "outside:blind", || format!("blind message {} of {}", i, n), || Prover::new_blind_signature_context(&pk, &h, &ProofNonce::random()).map(|_| true))?;
    let mut v = vec![i];
    if with { v.extend(0..n) }
    expect(c, i < n, "outside:request", || format!("request of message {} of {}", i, n), || Verifier::new_proof_request(&v, &pk).map(|_| true))?;
    c.outcome("ok");
    Ok(())
}
/// Commitments are sums: CommitmentBuilder and Commitment::new agree with the group.
fn commit(c: &mut Ctx) -> R {
    use pairing_plus::CurveProjective;
    use pairing_plus::bls12_381::{Fr, G1};
    let n = c.choose("terms", 4);
    let v: Vec<(usize, usize)> = (0..n).map(|_| (c.choose("base", 3), c.choose("scalar", 4))).collect();
    c.state(&v);
    let base = |i: usize| -> G1 { if i == 2 { G1::zero() } else { *keys(0, 2).0.h[i].as_ref() } };
    let mut b = bbs::CommitmentBuilder::new();
    let mut want = G1::zero();
    for (i, s) in &v {
        let m = msg([0, 1, 3, 4][*s]);
        b.add(GeneratorG1::from(base(*i)), m);
        let mut t = base(*i);
        t.mul_assign(*m.as_ref());
        want.add_assign(&t);
    }
    let bases: Vec<G1> = v.iter().map(|x| base(x.0)).collect();
    let scalars: Vec<Fr> = v.iter().map(|x| *msg([0, 1, 3, 4][x.1]).as_ref()).collect();
    c.same(b.finalize().as_ref() == &want, true, "commit", "CommitmentBuilder")?;
    c.same(Commitment::new(&bases, &scalars).as_ref() == &want, true, "commit", "Commitment::new")?;
    c.outcome(if want.is_zero() { "neutral" } else { "ok" });
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one signing (plain, or blind with one division of the messages between holder and issuer) followed by every verification in the scope. A state is one combination of choices, a transition one verification or signing.".into(),
        assumptions: vec!["group and pairing arithmetic is pairing-plus's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("sign", "1..4 (5) messages x 8 (12) value patterns x 3 kinds of key; every single replacement, exchange, key part and composition of two signatures", sign),
            Scenario::new("derive", "0..16 (64) messages x 4 seeds", derive),
            Scenario::new("blind", "1..3 (4) messages x all hidden sets x all issuer's sets and values x 4 indexes outside; 10 alterations", blind),
            Scenario::new("outside", "1..3 messages x 6 indexes x alone or not", outside),
            Scenario::new("large", "8..257 (1025) messages: each replaced, each generator neutral; generators different also from those of other sizes", crate::large::sign),
            Scenario::new("large-blind", "8..129 (1025) messages x 8 hidden sets", crate::large::blind),
            Scenario::new("hashes", "26 lengths up to 65537 x 14 positions of a change, for messages, nonces, challenges, generators, seeds", crate::large::hashes),
            Scenario::new("commit", "sums of up to 3 terms of 3 bases x 4 scalars", commit),
        ],
    }
}
