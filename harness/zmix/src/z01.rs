//! Z01: PS signatures and blind signatures.
use crate::util::*;
use mc::*;
use std::sync::Arc;
use zmix::signatures::ps::blind_signature::{BlindSignature, BlindingKey};
use zmix::signatures::ps::keys::{keygen, Params, Sigkey, Verkey};
use zmix::signatures::ps::signature::Signature;
use zmix::signatures::ps::{OtherGroup, SignatureGroup};

pub struct Keys { pub params: Params, pub vk: Verkey, pub sk: Sigkey, pub bk: BlindingKey }
/// Key `which` for `n` messages; key 2 has other parameters.
pub fn keys(which: usize, n: usize) -> Arc<Keys> {
    static C: Memo<(usize, usize), Keys> = Memo::new();
    C.of(&(which, n), || {
        let params = Params::new(if which == 2 { b"other" } else { b"test" });
        let (vk, sk) = keygen(n, &params);
        let bk = BlindingKey::new(&sk, &params);
        Keys { params, vk, sk, bk }
    })
}
/// Every small case: keys, signatures and messages are given by exponents.
fn exact(c: &mut Ctx) -> R {
    let n = c.choose("messages", 3);
    let p = keys(0, 1).params.clone();
    let x = c.pick("x", &[0i64, 1, 3]);
    let y: Vec<i64> = (0..n).map(|_| c.pick("y", &[0i64, 1, 2])).collect();
    let a = c.pick("sigma1", &[0i64, 1, -2]);
    c.state(&(n, x, &y, a));
    let vk = Verkey { X_tilde: &p.g_tilde * &f(x), Y_tilde: y.iter().map(|y| &p.g_tilde * &f(*y)).collect() };
    let dom = [0i64, 1, -3];
    for k in 0..dom.len().pow(n as u32) {
        let m: Vec<i64> = (0..n).map(|i| dom[k / dom.len().pow(i as u32) % dom.len()]).collect();
        let e = a * (x + y.iter().zip(&m).map(|(y, m)| y * m).sum::<i64>());
        for b in vec![e, e + 1, -e, 0, x] {
            let sig = Signature { sigma_1: &p.g * &f(a), sigma_2: &p.g * &f(b) };
            let ms: Vec<F> = m.iter().map(|m| f(*m)).collect();
            expect(c, a != 0 && b != 0 && b == e, "verify", || format!("x {} y {:?} m {:?} sigma ({}, {})", x, y, m, a, b), || sig.verify(&ms, &vk, &p))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
/// What an honest signature is worth for any other messages, keys or values.
fn sign(c: &mut Ctx) -> R {
    let n = c.choose("messages", c.q(4, 6));
    let pat = c.choose("values", 3);
    c.state(&(n, pat));
    let k = keys(0, n);
    let ms = vals(pat, n);
    let sig = made(c, "sign", || format!("{} messages", n), || Signature::new(&ms, &k.sk, &k.params))?;
    expect(c, true, "honest", || names(&ms), || sig.verify(&ms, &k.vk, &k.params))?;
    let again = made(c, "sign", || "again".into(), || Signature::new(&ms, &k.sk, &k.params))?;
    let other = made(c, "sign", || "other values".into(), || Signature::new(&vals((pat + 1) % 3, n), &k.sk, &k.params))?;
    fresh(c, &[&sig, &again, &other], &ms, &k)?;
    altered(c, &sig, &ms, &k)?;
    // to sign another number of messages
    for d in [1usize, 2] {
        let more: Vec<F> = vals(pat, n + d);
        makes(c, false, "sign:count", || format!("{} more", d), || Signature::new(&more, &k.sk, &k.params))?;
        if d <= n { makes(c, false, "sign:count", || format!("{} fewer", d), || Signature::new(&ms[d..], &k.sk, &k.params))? }
    }
    // any exponent for the first element, at any offset
    for u in [f(1), f(-1), val(4)].iter() {
        for off in 0..n + 3 {
            for cnt in 0..n + 2 {
                let r = verdict(c, "sign:offset", || format!("offset {} count {}", off, cnt), || {
                    Signature::sign_with_sigma_1_generated_from_given_exp(&vals(pat, cnt), &k.sk, u, off, &k.params.g)
                })?;
                c.ensure(r.is_some() == (off + cnt == n), "sign:offset", || format!("offset {} count {} of {}", off, cnt, n))?;
                if let Some((sigma_1, sigma_2)) = r {
                    let mut full = vec![f(0); off];
                    full.extend(vals(pat, cnt));
                    let s = Signature { sigma_1, sigma_2 };
                    expect(c, true, "sign:offset", || format!("offset {} count {} u {}", off, cnt, name(u)), || s.verify(&full, &k.vk, &k.params))?;
                    altered_messages(c, &s, &full, &k)?;
                }
            }
        }
    }
    makes(c, false, "sign:offset", || "largest offset".into(), || Signature::sign_with_sigma_1_generated_from_given_exp(&ms, &k.sk, &f(1), usize::MAX - n, &k.params.g))?;
    c.outcome("ok");
    Ok(())
}
/// No two signatures of a signer start from the same element (they could be combined to sign other
/// messages), and none from one whose exponent can be guessed.
fn fresh(c: &mut Ctx, sigs: &[&Signature], known: &[F], k: &Keys) -> R {
    let mut seen: Vec<(String, SignatureGroup)> = vec![("g".into(), k.params.g.clone()), ("X".into(), k.bk.X.clone())];
    seen.extend(k.bk.Y.iter().enumerate().map(|(i, y)| (format!("Y {}", i), y.clone())));
    seen.extend(known.iter().map(|m| (format!("g^{}", name(m)), &k.params.g * m)));
    for (i, s) in sigs.iter().enumerate() {
        for (w, e) in seen.iter() {
            c.step();
            c.ensure(s.sigma_1 != *e && s.sigma_1 != -e && s.sigma_2 != *e, "fresh", || format!("sigma 1 of signature {} is {}", i, w))?;
        }
        seen.push((format!("sigma 1 of signature {}", i), s.sigma_1.clone()));
    }
    Ok(())
}
fn altered_messages(c: &mut Ctx, sig: &Signature, ms: &[F], k: &Keys) -> R {
    let n = ms.len();
    for i in 0..n {
        for j in 0..6 {
            if val(j) == ms[i] { continue }
            let mut m = ms.to_vec();
            m[i] = val(j);
            expect(c, false, "message", || format!("message {} is {}, not {}", i, name(&m[i]), name(&ms[i])), || sig.verify(&m, &k.vk, &k.params))?;
        }
        for j in 0..i {
            if ms[i] == ms[j] { continue }
            let mut m = ms.to_vec();
            m.swap(i, j);
            expect(c, false, "order", || format!("messages {} and {} swapped", i, j), || sig.verify(&m, &k.vk, &k.params))?;
        }
        expect(c, false, "count", || format!("only {} messages", i), || sig.verify(&ms[..i], &k.vk, &k.params))?;
    }
    for x in 0..3 {
        let mut m = ms.to_vec();
        m.push(val(x));
        expect(c, false, "count", || "one message more".into(), || sig.verify(&m, &k.vk, &k.params))?;
    }
    Ok(())
}
fn altered(c: &mut Ctx, sig: &Signature, ms: &[F], k: &Keys) -> R {
    let n = ms.len();
    altered_messages(c, sig, ms, k)?;
    for other in 1..3 {
        let o = keys(other, n);
        expect(c, false, "key", || "another key".into(), || sig.verify(ms, &o.vk, &k.params))?;
        if n > 0 { expect(c, false, "key", || "another Y".into(), || sig.verify(ms, &Verkey { X_tilde: k.vk.X_tilde.clone(), Y_tilde: o.vk.Y_tilde.clone() }, &k.params)).or_else(|e| if ms.iter().all(|m| m.is_zero()) { Ok(()) } else { Err(e) })? }
        expect(c, false, "key", || "another X".into(), || sig.verify(ms, &Verkey { X_tilde: o.vk.X_tilde.clone(), Y_tilde: k.vk.Y_tilde.clone() }, &k.params))?;
        for i in 0..n {
            if ms[i].is_zero() { continue }
            let mut vk = k.vk.clone();
            vk.Y_tilde[i] = o.vk.Y_tilde[i].clone();
            expect(c, false, "key", || format!("another Y {}", i), || sig.verify(ms, &vk, &k.params))?;
        }
    }
    expect(c, false, "params", || "other parameters".into(), || sig.verify(ms, &k.vk, &keys(2, n).params))?;
    let (s1, s2) = (&sig.sigma_1, &sig.sigma_2);
    let id = SignatureGroup::identity();
    for (w, a, b) in vec![
        ("identities", id.clone(), id.clone()), ("sigma 1 identity", id.clone(), s2.clone()), ("sigma 2 identity", s1.clone(), id),
        ("swapped", s2.clone(), s1.clone()), ("sigma 1 doubled", s1 + s1, s2.clone()), ("sigma 2 doubled", s1.clone(), s2 + s2),
        ("sigma 1 negated", -s1, s2.clone()), ("sigma 2 negated", s1.clone(), -s2), ("moved by g", s1 + &k.params.g, s2 + &k.params.g), ("equal", s1.clone(), s1.clone()),
    ] {
        expect(c, false, "sigma", || w.into(), || Signature { sigma_1: a, sigma_2: b }.verify(ms, &k.vk, &k.params))?;
    }
    for t in [f(-1), f(2), val(5)].iter() {
        expect(c, true, "randomized", || format!("both raised to {}", name(t)), || Signature { sigma_1: s1 * t, sigma_2: s2 * t }.verify(ms, &k.vk, &k.params))?;
    }
    Ok(())
}
/// Blind issuance, both ways to sign.
fn blind(c: &mut Ctx) -> R {
    let n = 1 + c.choose("messages", c.q(3, 5));
    let h = 1 + c.choose("hidden", n);
    let pat = c.choose("values", 3);
    let bl = c.pick("blinding", &[0i64, 1, -1, 99]);
    let paper = c.flag("paper");
    c.state(&(n, h, pat, bl, paper));
    let k = keys(0, n);
    let ms = vals(pat, n);
    let blinding = if bl == 99 { val(7) } else { f(bl) };
    let mut comm = &k.params.g * &blinding;
    for i in 0..h { comm += &k.bk.Y[i] * &ms[i] }
    let issue = |comm: &SignatureGroup, known: &[F]| if paper {
        BlindSignature::new_from_paper(comm, known, &(&k.params.g * &k.sk.x), &k.bk, &k.params)
    } else {
        BlindSignature::new(comm, known, &k.sk, &k.bk, &k.params)
    };
    let s = made(c, "blind", || format!("{} of {} hidden", h, n), || issue(&comm, &ms[h..]))?;
    let sig = BlindSignature::unblind(&s, &blinding);
    expect(c, true, "blind:honest", || format!("{} of {} hidden, blinding {}", h, n, name(&blinding)), || sig.verify(&ms, &k.vk, &k.params))?;
    altered(c, &sig, &ms, &k)?;
    let mut all = vec![s.clone()];
    for p in vec![paper, !paper] {
        for m in vec![ms.clone(), vals((pat + 1) % 3, n)] {
            all.push(made(c, "blind", || "again".into(), || if p { BlindSignature::new_from_paper(&comm, &m[h..], &(&k.params.g * &k.sk.x), &k.bk, &k.params) } else { BlindSignature::new(&comm, &m[h..], &k.sk, &k.bk, &k.params) })?);
        }
    }
    let mut known = ms.clone();
    known.push(blinding.clone());
    fresh(c, &all.iter().collect::<Vec<_>>(), &known, &k)?;
    // with another blinding, or none
    for b in [f(0), f(1), f(-1), val(7), val(8), blinding.negation()].iter() {
        if *b == blinding { continue }
        let t = BlindSignature::unblind(&s, b);
        expect(c, false, "blind:blinding", || format!("unblinded with {}, not {}", name(b), name(&blinding)), || t.verify(&ms, &k.vk, &k.params))?;
    }
    if !blinding.is_zero() {
        expect(c, false, "blind:blinding", || "not unblinded".into(), || s.verify(&ms, &k.vk, &k.params))?;
    }
    // the signer took other known messages
    for i in h..n {
        let mut m = ms.clone();
        m[i] = m[i].clone() + f(1);
        let t = made(c, "blind", || "other messages".into(), || issue(&comm, &m[h..]))?;
        let t = BlindSignature::unblind(&t, &blinding);
        expect(c, false, "blind:known", || format!("known message {} differs", i), || t.verify(&ms, &k.vk, &k.params))?;
        expect(c, true, "blind:known", || format!("known message {} differs", i), || t.verify(&m, &k.vk, &k.params))?;
    }
    // any other number of known messages
    for cnt in 0..n + 3 {
        let known = vals(0, cnt);
        makes(c, cnt < n, "blind:count", || format!("{} known of {}", cnt, n), || issue(&comm, &known))?;
    }
    // keys that do not fit each other
    for m in 0..n + 2 {
        if m == n { continue }
        let o = keys(0, m);
        for cnt in 0..n + 2 {
            makes(c, false, "blind:keys", || format!("signing key for {}, blinding key for {}, {} known", m, n, cnt), || BlindSignature::new(&comm, &vals(0, cnt), &o.sk, &k.bk, &k.params))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Key generation: every element of the keys is the generator raised to the part of the secret key.
fn key(c: &mut Ctx) -> R {
    let n = c.pick("messages", &[0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128, 129]);
    c.state(&n);
    let p = Params::new(b"test");
    let (vk, sk) = keygen(n, &p);
    let bk = BlindingKey::new(&sk, &p);
    c.same((vk.msg_count(), bk.msg_count(), sk.y.len()), (n, n, n), "keys:count", "messages")?;
    c.ensure(vk.X_tilde == &p.g_tilde * &sk.x && bk.X == &p.g * &sk.x, "keys", || "X".into())?;
    let mut seen = vec![sk.x.to_hex()];
    for i in 0..n {
        c.ensure(vk.Y_tilde[i] == &p.g_tilde * &sk.y[i] && bk.Y[i] == &p.g * &sk.y[i], "keys", || format!("Y {}", i))?;
        seen.push(sk.y[i].to_hex());
    }
    let (_, other) = keygen(n, &p);
    seen.push(other.x.to_hex());
    seen.extend(other.y.iter().map(|y| y.to_hex()));
    let all = seen.len();
    seen.sort();
    seen.dedup();
    c.ensure(seen.len() == all, "keys:fresh", || "two secrets are equal".into())?;
    let back: Verkey = serde_json::from_str(&serde_json::to_string(&vk).unwrap()).map_err(|e| Violation { key: "keys:json".into(), msg: e.to_string() })?;
    c.ensure(back.X_tilde == vk.X_tilde && back.Y_tilde == vk.Y_tilde, "keys:json", || "verkey".into())?;
    let back: Sigkey = serde_json::from_str(&serde_json::to_string(&sk).unwrap()).map_err(|e| Violation { key: "keys:json".into(), msg: e.to_string() })?;
    c.ensure(back.x == sk.x && back.y == sk.y, "keys:json", || "sigkey".into())?;
    if n > 5 { return Ok(()) }
    for (a, b) in [(&b"test"[..], &b"test"[..]), (b"test", b"tes"), (b"", b"t"), (b"test", b"test : g")].iter() {
        let (x, y) = (Params::new(a), Params::new(b));
        c.ensure((x.g == y.g) == (a == b) && (x.g_tilde == y.g_tilde) == (a == b), "params", || format!("{:?} {:?}", a, b))?;
        c.ensure(!x.g.is_identity() && !x.g_tilde.is_identity(), "params", || "identity".into())?;
    }
    // every byte of a label counts
    let mut made_from: Vec<(usize, Params)> = vec![];
    for l in vec![0usize, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 65537] {
        let label: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
        let x = Params::new(&label);
        for (o, y) in made_from.iter() { c.ensure(x.g != y.g && x.g_tilde != y.g_tilde, "params", || format!("labels of {} and {} bytes", l, o))?; }
        if l > 0 && n == 0 {
            for i in vec![0, l / 2, l - 1] {
                let mut b = label.clone();
                b[i] ^= 1;
                let y = Params::new(&b);
                c.ensure(x.g != y.g && x.g_tilde != y.g_tilde, "params", || format!("byte {} of a label of {}", i, l))?;
            }
        }
        made_from.push((l, x));
    }
    let _: OtherGroup = vk.X_tilde;
    Ok(())
}
pub fn build(t: Tier) -> Check {
    let n = if t == Tier::Thorough { 6 } else { 4 };
    Check {
        rule: "A PS signature verifies for the messages, key and parameters it was made for and no others; blind issuance gives the same signature as open issuance".into(),
        assumptions: vec!["pairing and group arithmetic of amcl_wrapper".into(), "messages, keys and exponents outside the enumerated values behave as these do".into()],
        scenarios: vec![
            Scenario::new("exact", "keys, signatures and up to 2 messages by their exponents over small domains", exact),
            Scenario::new("sign", format!("up to {} messages, every single alteration", n - 1), sign),
            Scenario::new("blind", format!("up to {} messages, every number hidden, both signing ways", n - 1), blind),
            Scenario::new("keys", "17 sizes up to 129 messages, 16 labels up to 65537 bytes", key),
            Scenario::new("large", format!("up to {} messages, open and blind, every place at an edge or a power of two altered", if t == Tier::Thorough { 257 } else { 33 }), crate::large::ps_sign),
        ],
    }
}
