//! Many messages, and what the responses of a proof hide.
use crate::util::*;
use crate::z01::keys;
use crate::z02::{check, chal};
use crate::z04::{a1, a2, chain, params};
use crate::z05::{challenge, respond};
use amcl_wrapper::extension_field_gt::GT;
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem_g2::G2;
use mc::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::ps::blind_signature::BlindSignature;
use zmix::signatures::ps::pok_sig::PoKOfSignature;
use zmix::signatures::ps::signature::Signature;

/// Message `i` of many: all different.
pub fn m(i: usize) -> F { F::from_msg_hash(format!("large {}", i).as_bytes()) }
pub fn sizes(c: &Ctx) -> Vec<usize> {
    let mut v = vec![7, 8, 9, 15, 16, 17, 31, 32, 33];
    if c.thorough() { v.extend_from_slice(&[63, 64, 65, 127, 128, 129, 255, 256, 257]) }
    v
}
/// Positions around powers of two and the ends.
pub fn places(n: usize) -> Vec<usize> { (0..n).filter(|i| n < 10 || i & (i + 1) == 0 || i & i.wrapping_sub(1) == 0 || i + 1 == n || 2 * i == n).collect() }
pub fn pattern(k: usize, n: usize) -> Vec<usize> {
    match k {
        0 => vec![],
        1 => (0..n).collect(),
        2 => (0..n).step_by(2).collect(),
        3 => vec![n - 1],
        4 => (0..n - 1).collect(),
        5 => (1..n).collect(),
        6 => (n / 2..n).collect(),
        _ => vec![0, n / 2, n - 1],
    }
}
fn sig(n: usize) -> Arc<Signature> {
    static C: Memo<usize, Signature> = Memo::new();
    C.of(&n, || { let k = keys(0, n); Signature::new(&(0..n).map(m).collect::<Vec<_>>(), &k.sk, &k.params).unwrap() })
}

/// Z01: every place of a long signature counts, openly and blindly issued.
pub fn ps_sign(c: &mut Ctx) -> R {
    let n = c.pick("messages", &sizes(c));
    let h = match c.choose("hidden", 5) { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 1, _ => n };
    let paper = h > 0 && c.flag("paper");
    c.state(&(n, h, paper));
    let k = keys(0, n);
    let ms: Vec<F> = (0..n).map(m).collect();
    let b = F::from_msg_hash(b"blinding");
    let s = if h == 0 { sig(n).as_ref().clone() } else {
        let mut comm = &k.params.g * &b;
        for i in 0..h { comm += &k.bk.Y[i] * &ms[i] }
        let s = made(c, "blind", || format!("{} of {} hidden", h, n), || if paper { BlindSignature::new_from_paper(&comm, &ms[h..], &(&k.params.g * &k.sk.x), &k.bk, &k.params) } else { BlindSignature::new(&comm, &ms[h..], &k.sk, &k.bk, &k.params) })?;
        BlindSignature::unblind(&s, &b)
    };
    expect(c, true, "large:honest", || format!("{} messages, {} hidden", n, h), || s.verify(&ms, &k.vk, &k.params))?;
    for i in places(n) {
        let mut x = ms.clone();
        x[i] = f(7);
        expect(c, false, "large:message", || format!("message {} of {} replaced", i, n), || s.verify(&x, &k.vk, &k.params))?;
        if i > 0 {
            let mut x = ms.clone();
            x.swap(i, i - 1);
            expect(c, false, "large:order", || format!("messages {} and {} of {} swapped", i - 1, i, n), || s.verify(&x, &k.vk, &k.params))?;
        }
        let mut vk = k.vk.clone();
        vk.Y_tilde[i] = &vk.Y_tilde[i] + &k.params.g_tilde;
        expect(c, false, "large:key", || format!("Y {} of {} replaced", i, n), || s.verify(&ms, &vk, &k.params))?;
    }
    for d in [1usize, 8, 16, 32, 64, 128, 256].iter() {
        if *d <= n { expect(c, false, "large:count", || format!("{} messages fewer", d), || s.verify(&ms[..n - d], &k.vk, &k.params))?; }
        let more: Vec<F> = (0..n + d).map(m).collect();
        expect(c, false, "large:count", || format!("{} messages more", d), || s.verify(&more, &k.vk, &k.params))?;
        makes(c, false, "large:count", || format!("signing {} messages more", d), || Signature::new(&more, &k.sk, &k.params))?;
        if *d <= n { makes(c, false, "large:count", || format!("signing {} messages fewer", d), || Signature::new(&ms[*d..], &k.sk, &k.params))?; }
    }
    c.outcome("ok");
    Ok(())
}
/// Z02: every place of a long proof counts.
pub fn ps_pok(c: &mut Ctx) -> R {
    let n = c.pick("messages", &sizes(c));
    let pat = c.choose("shown", 8);
    c.state(&(n, pat));
    let shown = pattern(pat, n);
    let k = keys(0, n);
    let ms: Vec<F> = (0..n).map(m).collect();
    let s = sig(n);
    let set: HashSet<usize> = shown.iter().cloned().collect();
    let pok = made(c, "init", || format!("{} messages", n), || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, None, set.clone()))?;
    let x = chal(&pok.to_bytes(), b"nonce");
    let p = made(c, "prove", || "proof".into(), || pok.gen_proof(&x))?;
    c.same(p.proof_vc.responses.len(), n - shown.len() + 1, "large:responses", "responses")?;
    let r: BTreeMap<usize, F> = shown.iter().map(|i| (*i, ms[*i].clone())).collect();
    check(c, &p, &k.vk, &k, &r, b"nonce", true, "large:honest", || format!("{} messages", n))?;
    for i in places(n) {
        let mut q = r.clone();
        if set.contains(&i) {
            q.insert(i, f(7));
            check(c, &p, &k.vk, &k, &q, b"nonce", false, "large:value", || format!("message {} of {} replaced", i, n))?;
            q.remove(&i);
            check(c, &p, &k.vk, &k, &q, b"nonce", false, "large:asked", || format!("message {} of {} not asked for", i, n))?;
            for j in [i + 1, i ^ 1, i ^ 8, i ^ 16, i ^ 32, i ^ 64, i ^ 128, i ^ 256].iter() {
                if set.contains(j) || *j >= n { continue }
                let mut q = q.clone();
                q.insert(*j, ms[i].clone());
                check(c, &p, &k.vk, &k, &q, b"nonce", false, "large:asked", || format!("message {} of {} taken for message {}", i, n, j))?;
            }
        } else {
            q.insert(i, ms[i].clone());
            check(c, &p, &k.vk, &k, &q, b"nonce", false, "large:asked", || format!("message {} of {} asked for too", i, n))?;
        }
        let mut vk = k.vk.clone();
        vk.Y_tilde[i] = &vk.Y_tilde[i] + &k.params.g_tilde;
        check(c, &p, &vk, &k, &r, b"nonce", false, "large:key", || format!("Y {} of {} replaced", i, n))?;
        // a proof about a message that was not signed
        let mut y = ms.clone();
        y[i] = f(7);
        let pok = made(c, "init", || "other".into(), || PoKOfSignature::init(&s, &k.vk, &k.params, &y, None, set.clone()))?;
        let x = chal(&pok.to_bytes(), b"nonce");
        let p = made(c, "prove", || "other".into(), || pok.gen_proof(&x))?;
        let r: BTreeMap<usize, F> = shown.iter().map(|i| (*i, y[*i].clone())).collect();
        check(c, &p, &k.vk, &k, &r, b"nonce", false, "large:unsigned", || format!("message {} of {} was not signed", i, n))?;
    }
    c.outcome("ok");
    Ok(())
}
fn distinct(c: &mut Ctx, key: &str, named: Vec<(String, Vec<u8>)>) -> R {
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for (w, b) in named {
        c.step();
        if let Some(o) = seen.get(&b) { return violation(key, format!("{} and {} are equal", o, w)) }
        seen.insert(b, w);
    }
    Ok(())
}
/// Z02: two answers of one prover give its secrets and its blindings. No blinding is used twice, in
/// one proof or in two, and the randomized signature is not the signature raised to a value in the proof.
pub fn ps_hiding(c: &mut Ctx) -> R {
    let n = c.choose("messages", c.q(12, 20));
    let pat = if n == 0 { 0 } else { c.choose("shown", 8) };
    let proofs = c.pick("proofs", &[2, 3]);
    c.state(&(n, pat, proofs));
    let shown = if n == 0 { vec![] } else { pattern(pat, n) };
    let set: HashSet<usize> = shown.iter().cloned().collect();
    let k = keys(0, n);
    let ms: Vec<F> = (0..n).map(m).collect();
    let s = sig(n);
    let hidden: Vec<usize> = (0..n).filter(|i| !set.contains(i)).collect();
    let (x, y) = (F::from_msg_hash(b"one"), F::from_msg_hash(b"two"));
    let d = (&x - &y).inverse();
    let mut named = vec![];
    for q in 0..proofs {
        let pok = made(c, "init", || "proof".into(), || PoKOfSignature::init(&s, &k.vk, &k.params, &ms, None, set.clone()))?;
        let (a, b) = (made(c, "prove", || "one".into(), || pok.clone().gen_proof(&x))?, made(c, "prove", || "two".into(), || pok.clone().gen_proof(&y))?);
        let mut found = vec![];
        for i in 0..=hidden.len() {
            let secret = &(&b.proof_vc.responses[i] - &a.proof_vc.responses[i]) * &d;
            let blinding = &a.proof_vc.responses[i] + &(&x * &secret);
            if i > 0 { c.ensure(secret == ms[hidden[i - 1]], "hiding:secret", || format!("response {} is not about message {}", i, hidden[i - 1]))?; }
            found.push((format!("blinding {} of proof {}", i, q), blinding));
            if i == 0 { found.push((format!("t of proof {}", q), secret)) }
        }
        // sigma 1 of the proof against sigma 1 of the signature
        let mut by: Vec<F> = found.iter().map(|(_, e)| e.clone()).collect();
        by.extend(ms.iter().cloned());
        by.push(f(1));
        for e in by.iter() {
            if e.is_zero() { return violation("hiding:zero", "a blinding is zero".to_string()) }
            for (w, e) in vec![("the value", e.clone()), ("its negation", e.negation()), ("its inverse", e.inverse())] {
                c.ensure(pok.sig.sigma_1 != &s.sigma_1 * &e && pok.sig.sigma_2 != &s.sigma_2 * &e, "hiding:sigma", || format!("the randomized signature is the signature raised to {} {}", w, name(&e)))?;
            }
        }
        for (w, e) in found {
            named.push((w, if e.to_hex() < e.negation().to_hex() { e.to_bytes() } else { e.negation().to_bytes() }));
        }
        for (i, e) in ms.iter().enumerate().filter(|_| q == 0) { named.push((format!("message {}", i), if e.to_hex() < e.negation().to_hex() { e.to_bytes() } else { e.negation().to_bytes() })) }
        named.push((format!("sigma 1 of proof {}", q), pok.sig.sigma_1.to_bytes()));
        named.push((format!("sigma 2 of proof {}", q), pok.sig.sigma_2.to_bytes()));
        named.push((format!("J of proof {}", q), pok.J.to_bytes()));
    }
    distinct(c, "hiding:reuse", named)?;
    c.outcome("ok");
    Ok(())
}
/// Z05: the same for attribute tokens, whose blindings show as points.
pub fn token_hiding(c: &mut Ctx) -> R {
    let len = 1 + c.choose("links", c.q(4, 6));
    let shape: Vec<usize> = match c.choose("attributes", 3) { 0 => vec![3; len], 1 => vec![0; len], _ => (0..len).map(|i| (i + 1) % 4).collect() };
    let r: Vec<HashSet<usize>> = match c.choose("revealed", 3) {
        0 => shape.iter().map(|_| HashSet::new()).collect(),
        1 => shape.iter().map(|n| (0..*n).step_by(2).collect()).collect(),
        _ => shape.iter().map(|n| (0..*n).collect()).collect(),
    };
    let way = c.choose("way", 3);
    c.state(&(&shape, r.iter().map(|x| x.len()).collect::<Vec<_>>(), way));
    let p = params(0, 4);
    let x = chain(0, 4, &shape);
    let mut named = vec![];
    let mut scalars = vec![];
    let (mut odd_r, mut even_r): (Vec<(usize, G2)>, Vec<(usize, G1)>) = (vec![], vec![]);
    for q in 0..2 {
        let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
        let comm = made(c, "commit", || "commitment".into(), || match way {
            0 => t.commitment(r.clone()),
            1 => t.commitment_with_precomputation_on_setup_params(r.clone(), &PrecompOnSetupParams::new(&p.0, &p.1)),
            _ => t.commitment_with_precomputation(r.clone(), &PrecompOnSetupParams::new(&p.0, &p.1), &PrecompOnCredChain::new(&x.chain, &p.0, &p.1).unwrap()),
        }.map_err(|e| e.to_string()))?;
        let ch = [challenge(&comm, &x.even[0], b"one"), challenge(&comm, &x.even[0], b"two")];
        let d = (&ch[0] - &ch[1]).inverse();
        let a = made(c, "respond", || "one".into(), || respond(&x, &t, &comm, &ch[0]))?;
        let b = made(c, "respond", || "two".into(), || respond(&x, &t, &comm, &ch[1]))?;
        // the secret point and the blinding point of a response
        let one = |u: &G1, v: &G1| -> (G1, G1) { let s = (u - v) * &d; let b = u - &s * &ch[0]; (s, b) };
        let two = |u: &G2, v: &G2| -> (G2, G2) { let s = (u - v) * &d; let b = u - &s * &ch[0]; (s, b) };
        let up = |g: &G1| GT::ate_pairing(g, &p.0.g2).to_bytes();
        let dn = |g: &G2| GT::ate_pairing(&p.1.g1, g).to_bytes();
        for i in 0..len {
            let h = i / 2;
            let w = |s: String| format!("the blinding of {} at level {} of token {}", s, i + 1, q);
            if i % 2 == 0 {
                let link = &x.chain.odd_links[h];
                let hid: Vec<usize> = (0..shape[i]).filter(|j| !r[i].contains(j)).collect();
                c.same((a.odd_level_resp_t[h].len(), a.odd_level_resp_a[h].len()), (shape[i] + 1, hid.len()), "hiding:count", "responses")?;
                let (s, bl) = one(&a.odd_level_resp_s[h], &b.odd_level_resp_s[h]);
                c.ensure(s != link.signature.S, "hiding:sig", || format!("the proof is about S itself at level {}", i + 1))?;
                named.push((w("S".into()), up(&bl)));
                c.ensure(!bl.is_identity(), "hiding:zero", || "S".into())?;
                for j in 0..=shape[i] {
                    let (s, bl) = one(&a.odd_level_resp_t[h][j], &b.odd_level_resp_t[h][j]);
                    c.ensure(s != link.signature.T[j], "hiding:sig", || format!("the proof is about T {} itself at level {}", j, i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || format!("T {}", j))?;
                    named.push((w(format!("T {}", j)), up(&bl)));
                }
                for (k, j) in hid.iter().enumerate() {
                    let (s, bl) = one(&a.odd_level_resp_a[h][k], &b.odd_level_resp_a[h][k]);
                    c.ensure(s == link.attributes[*j], "hiding:secret", || format!("attribute {} at level {}", j, i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || format!("attribute {}", j))?;
                    named.push((w(format!("attribute {}", j)), up(&bl)));
                }
                if i + 1 < len {
                    let (s, bl) = one(&a.odd_level_resp_vk[h], &b.odd_level_resp_vk[h]);
                    c.ensure(s == x.odd[h].0, "hiding:secret", || format!("verkey at level {}", i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || "verkey".into())?;
                    named.push((w("the verkey".into()), up(&bl)));
                }
                c.ensure(comm.odd_level_blinded_r[h] != link.signature.R && comm.odd_level_blinded_r[h] != -&link.signature.R, "hiding:sig", || format!("R at level {} is not blinded", i + 1))?;
            } else {
                let link = &x.chain.even_links[h];
                let hid: Vec<usize> = (0..shape[i]).filter(|j| !r[i].contains(j)).collect();
                c.same((a.even_level_resp_t[h].len(), a.even_level_resp_a[h].len()), (shape[i] + 1, hid.len()), "hiding:count", "responses")?;
                let (s, bl) = two(&a.even_level_resp_s[h], &b.even_level_resp_s[h]);
                c.ensure(s != link.signature.S, "hiding:sig", || format!("the proof is about S itself at level {}", i + 1))?;
                c.ensure(!bl.is_identity(), "hiding:zero", || "S".into())?;
                named.push((w("S".into()), dn(&bl)));
                for j in 0..=shape[i] {
                    let (s, bl) = two(&a.even_level_resp_t[h][j], &b.even_level_resp_t[h][j]);
                    c.ensure(s != link.signature.T[j], "hiding:sig", || format!("the proof is about T {} itself at level {}", j, i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || format!("T {}", j))?;
                    named.push((w(format!("T {}", j)), dn(&bl)));
                }
                for (k, j) in hid.iter().enumerate() {
                    let (s, bl) = two(&a.even_level_resp_a[h][k], &b.even_level_resp_a[h][k]);
                    c.ensure(s == link.attributes[*j], "hiding:secret", || format!("attribute {} at level {}", j, i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || format!("attribute {}", j))?;
                    named.push((w(format!("attribute {}", j)), dn(&bl)));
                }
                if i + 1 < len {
                    let (s, bl) = two(&a.even_level_resp_vk[h], &b.even_level_resp_vk[h]);
                    c.ensure(s == x.even[h + 1].0, "hiding:secret", || format!("verkey at level {}", i + 1))?;
                    c.ensure(!bl.is_identity(), "hiding:zero", || "verkey".into())?;
                    named.push((w("the verkey".into()), dn(&bl)));
                }
                c.ensure(comm.even_level_blinded_r[h] != link.signature.R && comm.even_level_blinded_r[h] != -&link.signature.R, "hiding:sig", || format!("R at level {} is not blinded", i + 1))?;
            }
        }
        let s = &(&a.resp_csk - &b.resp_csk) * &d;
        c.ensure(s == *x.sk.last().unwrap(), "hiding:secret", || "signing key".into())?;
        let bl = &a.resp_csk - &(&s * &ch[0]);
        c.ensure(!bl.is_zero(), "hiding:zero", || "signing key".into())?;
        named.push((format!("the blinding of the signing key of token {}", q), up(&(&p.0.g1 * &bl))));
        scalars.push(bl);
        for i in 0..len {
            if i % 2 == 0 {
                for e in &scalars { c.ensure(comm.odd_level_blinded_r[i / 2] != &x.chain.odd_links[i / 2].signature.R * e, "hiding:sig", || format!("R at level {} is raised to the blinding of the signing key", i + 1))?; }
                odd_r.push((i, comm.odd_level_blinded_r[i / 2].clone()));
                named.push((format!("R at level {} of token {}", i + 1, q), comm.odd_level_blinded_r[i / 2].to_bytes()));
            } else {
                for e in &scalars { c.ensure(comm.even_level_blinded_r[i / 2] != &x.chain.even_links[i / 2].signature.R * e, "hiding:sig", || format!("R at level {} is raised to the blinding of the signing key", i + 1))?; }
                even_r.push((i, comm.even_level_blinded_r[i / 2].clone()));
                named.push((format!("R at level {} of token {}", i + 1, q), comm.even_level_blinded_r[i / 2].to_bytes()));
            }
        }
    }
    // R raised to one exponent at two levels: whoever knows the signatures sees it across the groups
    for (i, ob) in &odd_r {
        for (j, eb) in &even_r {
            let (o, e) = (&x.chain.odd_links[i / 2].signature.R, &x.chain.even_links[j / 2].signature.R);
            for sign in vec![false, true] {
                let eb = if sign { -eb } else { eb.clone() };
                c.ensure(GT::ate_pairing(e, ob) != GT::ate_pairing(&eb, o), "hiding:reuse", || format!("R of levels {} and {} are raised to the same", i + 1, j + 1))?;
                c.step();
            }
        }
    }
    // blindings in the two groups are compared by pairing with the other generator
    c.ensure(p.0.g1 == p.1.g1 && p.0.g2 == p.1.g2, "hiding:generators", || "the two parameters have other generators".into())?;
    distinct(c, "hiding:reuse", named)?;
    c.outcome("ok");
    Ok(())
}
macro_rules! groth {
    ($name:ident, $sig:ident, $gs:ident, $mg:ident, $which:tt, $attr:ident) => {
        /// Z04: every place of a long signature counts.
        pub fn $name(c: &mut Ctx) -> R {
            let v: Vec<usize> = if c.thorough() { sizes(c) } else { vec![7, 8, 9, 16, 17, 33] };
            let n = c.pick("messages", &v);
            let room = c.flag("room");
            c.state(&(n, room));
            let ps = params(0, if room { n + 3 } else { n });
            let p = &ps.$which;
            let (sk, vk) = $gs::keygen(p);
            let ms: Vec<$mg> = (0..n).map(|i| $attr(i)).collect();
            let s = made(c, "sign", || format!("{} messages", n), || $sig::new(&ms, &sk, p))?;
            c.same(s.T.len(), n, "large:count", "T")?;
            let two = |c: &mut Ctx, want: bool, key: &str, what: String, s: &$sig, m: &[$mg], p: &_| -> R {
                expect(c, want, key, || format!("{} (one by one)", what), || s.verify(m, &vk, p).map_err(|e| e.to_string()))?;
                expect(c, want, key, || format!("{} (batch)", what), || s.verify_batch(m, &vk, p).map_err(|e| e.to_string()))
            };
            two(c, true, "large:honest", format!("{} messages", n), &s, &ms, p)?;
            let z = s.randomize(&f(5));
            two(c, true, "large:randomized", format!("{} messages, randomized", n), &z, &ms, p)?;
            c.ensure(z.R != s.R && z.S != s.S && z.T.as_slice().iter().zip(s.T.as_slice()).all(|(a, b)| a != b), "large:randomized", || format!("{} messages: parts kept", n))?;
            for i in places(n) {
                let mut x = ms.clone();
                x[i] = &x[i] + &$attr(999);
                two(c, false, "large:message", format!("message {} of {} replaced", i, n), &s, &x, p)?;
                let mut t = s.T.as_slice().to_vec();
                t[i] = &t[i] + &$attr(999);
                two(c, false, "large:altered", format!("T {} of {} replaced", i, n), &$sig { T: t.into(), ..s.clone() }, &ms, p)?;
                if i > 0 {
                    let mut x = ms.clone();
                    x.swap(i, i - 1);
                    two(c, false, "large:order", format!("messages {} and {} of {} swapped", i - 1, i, n), &s, &x, p)?;
                }
                let mut q = p.clone();
                q.y[i] = &q.y[i] + &$attr(999);
                two(c, false, "large:params", format!("y {} of {} replaced", i, n), &s, &ms, &q)?;
            }
            for d in [1usize, 8, 16, 32, 64, 128, 256].iter().filter(|d| **d <= n) {
                // fewer messages with as many T, fewer T with as many messages
                two(c, false, "large:count", format!("{} T fewer", d), &$sig { T: s.T.as_slice()[..n - d].to_vec().into(), ..s.clone() }, &ms, p)?;
            }
            for d in 1..4 {
                let more: Vec<$mg> = (0..n + d).map(|i| $attr(i)).collect();
                two(c, false, "large:count", format!("{} messages more", d), &s, &more, p)?;
                makes(c, room, "large:count", || format!("signing {} messages more", d), || $sig::new(&more, &sk, p))?;
            }
            // the generators are all different, also from those for other numbers
            let mut named: Vec<(String, Vec<u8>)> = p.y.iter().enumerate().map(|(i, y)| (format!("y {}", i), y.to_bytes())).collect();
            named.push(("the generator".into(), p.g1.to_bytes()));
            named.push(("the other generator".into(), p.g2.to_bytes()));
            distinct(c, "large:generators", named)?;
            c.outcome("ok");
            Ok(())
        }
    };
}
groth!(groth1, Groth1Sig, GrothS1, G1, 0, a1);
groth!(groth2, Groth2Sig, GrothS2, G2, 1, a2);
