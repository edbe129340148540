//! Z06: Camenisch-Shoup verifiable encryption.
use crate::util::{expect, made, makes, verdict, V};
use mc::*;
use zmix::verifiable_encryption::bn::BigNumber as B;
use zmix::verifiable_encryption::cl::hash::get_hash_as_int;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;

fn dec(s: &str) -> B { B::from_dec(s).unwrap() }
fn b(n: u64) -> B { dec(&n.to_string()) }
fn cp(x: &B) -> B { x.try_clone().unwrap() }
fn cps(x: &[B]) -> Vec<B> { x.iter().map(cp).collect() }
fn neg(x: &B, m: &B) -> B { m.sub(x).unwrap() }
fn copy(x: &CSCiphertext) -> CSCiphertext { CSCiphertext { u: cp(&x.u), e: cps(&x.e), v: cp(&x.v) } }
fn same(x: &CSCiphertext, y: &CSCiphertext) -> bool { x.u == y.u && x.e == y.e && x.v == y.v }
const TINY: [(u64, u64); 3] = [(7, 11), (11, 47), (23, 59)];
const P1: &str = "244618503290539487449359024286001441207";
const Q1: &str = "309527935764106664333853440394489089423";
const P2: &str = "102268982678591644256488017317203958632201422706728735934005493434781895558807";
const Q2: &str = "64265034715569197833599407937894575304363125985821365429351370188387622710427";
/// A pair of keys over given safe primes: what `CSKeypair::new` makes of the primes it draws.
fn keypair(p: &B, q: &B, num: usize) -> CSKeypair {
    let mut ctx = B::new_context().unwrap();
    let n = p.mul(q, None).unwrap();
    let group = loop {
        let g = PaillierGroup::new(&n, &mut ctx).unwrap();
        if B::gcd(&g.g, &n, None).unwrap() == b(1) && g.g != b(1) { break g }
    };
    let max = group.modulus.rshift(2).unwrap();
    let x1: Vec<B> = (0..num).map(|_| max.rand_range().unwrap()).collect();
    let (x2, x3) = (max.rand_range().unwrap(), max.rand_range().unwrap());
    let y = |x: &B| group.g.mod_exp(x, &group.modulus, None).unwrap();
    let (y1, y2, y3) = (x1.iter().map(|x| y(x)).collect(), y(&x2), y(&x3));
    let t = b(2).inverse(&n, None).unwrap().lshift1().unwrap();
    CSKeypair { pri_key: CSEncPrikey { x1, x2, x3 }, pub_key: CSEncPubkey { n, two_inv_times_2: t, paillier_group: group, y1, y2, y3 } }
}
fn big(which: usize, num: usize) -> CSKeypair { if which == 0 { keypair(&dec(P1), &dec(Q1), num) } else { keypair(&dec(P2), &dec(Q2), num) } }
/// `Some(messages)` or refused.
fn open(c: &mut Ctx, what: &dyn Fn() -> String, ct: &CSCiphertext, label: &[u8], k: &CSKeypair) -> V<Option<Vec<B>>> { verdict(c, "decrypt", || what(), || decrypt(label, ct, &k.pub_key, &k.pri_key)) }
fn refused(c: &mut Ctx, key: &str, what: &dyn Fn() -> String, ct: &CSCiphertext, label: &[u8], k: &CSKeypair) -> R {
    let r = open(c, what, ct, label, k)?;
    c.ensure(r.is_none(), key, || format!("{}: decrypted to {:?}", what(), r.as_ref().map(|r| r.iter().map(|x| x.to_dec().unwrap()).collect::<Vec<_>>())))
}

/// Every message over tiny moduli, and what the ciphertext is made of.
fn tiny(c: &mut Ctx) -> R {
    let (p, q) = TINY[c.choose("modulus", 3)];
    let num = 1 + c.choose("messages", 3);
    c.state(&(p, q, num));
    let k = keypair(&b(p), &b(q), num);
    let (n, n2) = ((p * q) as u128, (p * q) as u128 * (p * q) as u128);
    let int = |x: &B| -> u128 { x.to_dec().unwrap().parse().unwrap() };
    let pow = |x: u128, mut e: u128| { let (mut r, mut y) = (1, x % n2); while e > 0 { if e & 1 == 1 { r = r * y % n2 } y = y * y % n2; e >>= 1 } r };
    let (g, y1) = (int(&k.pub_key.paillier_group.g), k.pub_key.y1.iter().map(|x| int(x)).collect::<Vec<_>>());
    let all = p * q;
    // one message through all values, the others at and around the borders
    for at in 0..num {
        for m in 0..all {
            let ms: Vec<u64> = (0..num).map(|i| if i == at { m } else { [0, 1, all - 1, all / 2][(m as usize + i) % 4] }).collect();
            let bm: Vec<B> = ms.iter().map(|m| b(*m)).collect();
            let ct = made(c, "encrypt", || format!("messages {:?} modulo {}", ms, n), || encrypt(&bm, b"label", &k.pub_key))?;
            let got = open(c, &|| format!("messages {:?} modulo {}", ms, n), &ct, b"label", &k)?;
            c.ensure(got.as_ref() == Some(&bm), "decrypt", || format!("messages {:?} modulo {} decrypt to {:?}", ms, n, got))?;
            // some r explains all of it
            let ok = (0..n / 4 + 1).any(|r| pow(g, r) == int(&ct.u) && (0..num).all(|i| pow(y1[i], r) * (1 + n * ms[i] as u128) % n2 == int(&ct.e[i])));
            c.ensure(ok, "form", || format!("messages {:?} modulo {}: no r explains the ciphertext", ms, n))?;
            c.ensure(int(&ct.v) <= n2 / 2, "form", || "v is not its absolute value".into())?;
        }
    }
    for m in vec![b(all), b(all + 1), b(2 * all), b(1).set_negative(true).unwrap(), b(all).set_negative(true).unwrap()] {
        for at in 0..num {
            let mut ms: Vec<B> = (0..num).map(|i| b(i as u64)).collect();
            ms[at] = cp(&m);
            let what = || format!("message {} modulo {}", m.to_dec().unwrap(), n);
            makes(c, false, "range", what, || encrypt(&ms, b"label", &k.pub_key))?;
            let bl: Vec<B> = ms.iter().map(|_| b(3)).collect();
            makes(c, false, "range", what, || encrypt_and_prove_phase_1(&ms, &bl, b"label", &k.pub_key))?;
        }
    }
    // the absolute value, for all there are
    let pg = &k.pub_key.paillier_group;
    if p == 7 {
        for a in 0..2 * n2 + 2 {
            let want = (a % n2).min(n2 - a % n2);
            let x = made(c, "abs", || format!("abs({})", a), || pg.abs(&b(a as u64), None))?;
            c.ensure(int(&x) == want % n2, "abs", || format!("abs({}) = {}", a, x.to_dec().unwrap()))?;
            let s = made(c, "sqr", || format!("sqr({})", a), || pg.sqr(&b(a as u64), None))?;
            c.ensure(int(&s) == a * a % n2, "sqr", || format!("sqr({}) = {}", a, s.to_dec().unwrap()))?;
        }
    }
    // nothing panics, and what decrypts is in range
    let xs: Vec<u64> = vec![0, 1, 2, p, q, all - 1, all, all + 1, all * 2, all * all / 2, all * all / 2 + 1, all * all - 1, all * all, all * all + 1];
    for u in &xs { for e in &xs { for v in &xs {
        let ct = CSCiphertext { u: b(*u), e: (0..num).map(|_| b(*e)).collect(), v: b(*v) };
        if let Some(ms) = open(c, &|| format!("u {} e {} v {} modulo {}", u, e, v, n), &ct, b"label", &k)? {
            c.ensure(ms.len() == num && ms.iter().all(|m| int(m) < n), "decrypt", || format!("u {} e {} v {} modulo {} decrypt to {:?}", u, e, v, n, ms))?;
        }
    } } }
    Ok(())
}
fn messages(k: &CSKeypair, pat: usize, n: usize) -> Vec<B> {
    let top = k.pub_key.n.decrement().unwrap();
    (0..n).map(|i| match pat { 0 => k.pub_key.n.rand_range().unwrap(), 1 => b(7), _ => vec![b(0), cp(&top), b(1)].swap_remove(i % 3) }).collect()
}
const LABELS: [&[u8]; 6] = [b"label", b"", b"labe", b"label2", b"Label", b"\0label"];
fn encrypted(c: &mut Ctx) -> R {
    let which = c.choose("modulus", c.q(1, 2));
    let max = 1 + c.choose("supported", 3);
    let n = 1 + c.choose("messages", 4);
    let pat = c.choose("pattern", 3);
    let lab = c.choose("label", 6);
    c.state(&(which, max, n, pat, lab));
    let (k, z) = (big(which, max), big(which, max));
    let ms = messages(&k, pat, n);
    let label = LABELS[lab];
    let ct = match verdict(c, "encrypt", || format!("{} messages of {}", n, max), || encrypt(&ms, label, &k.pub_key))? {
        Some(x) => x,
        None => { c.ensure(n > max, "count", || format!("{} messages of {} refused", n, max))?; return Ok(()) }
    };
    c.ensure(n <= max, "count", || format!("{} messages of {}", n, max))?;
    let got = open(c, &|| "honest".into(), &ct, label, &k)?;
    c.ensure(got.as_ref() == Some(&ms), "decrypt", || format!("decrypts to {:?}", got))?;
    let ct2: CSCiphertext = serde_json::from_str(&serde_json::to_string(&ct).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
    c.ensure(same(&ct, &ct2), "json", || "ciphertext".into())?;
    let pk2: CSEncPubkey = serde_json::from_str(&serde_json::to_string(&k.pub_key).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
    let sk2: CSEncPrikey = serde_json::from_str(&serde_json::to_string(&k.pri_key).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
    let got = open(c, &|| "keys read again".into(), &ct2, label, &CSKeypair { pub_key: pk2, pri_key: sk2 })?;
    c.ensure(got.as_ref() == Some(&ms), "json", || format!("decrypts to {:?}", got))?;
    let again = made(c, "encrypt", || "again".into(), || encrypt(&ms, label, &k.pub_key))?;
    c.ensure(again.u != ct.u && again.v != ct.v && (0..n).all(|i| again.e[i] != ct.e[i]), "fresh", || "two ciphertexts have a part in common".into())?;
    // another label
    for l in LABELS.iter() { if *l != label { refused(c, "label", &|| format!("label {:?} for {:?}", l, label), &ct, l, &k)? } }
    // another key
    refused(c, "key", &|| "another key".into(), &ct, label, &z)?;
    for i in 0..n {
        let (mut x1, y1) = (cps(&k.pri_key.x1), cps(&k.pub_key.y1));
        x1[i] = x1[i].increment().unwrap();
        let pk: CSEncPubkey = serde_json::from_str(&serde_json::to_string(&k.pub_key).unwrap()).unwrap();
        let kk = CSKeypair { pub_key: CSEncPubkey { y1, ..pk }, pri_key: CSEncPrikey { x1, x2: cp(&k.pri_key.x2), x3: cp(&k.pri_key.x3) } };
        refused(c, "key", &|| format!("key of message {}", i), &ct, label, &kk)?;
    }
    let m = &k.pub_key.paillier_group.modulus;
    let repl = |x: &B, o: &B| -> Vec<(String, B)> {
        vec![("0".into(), b(0)), ("1".into(), b(1)), ("n".into(), cp(&k.pub_key.n)), ("n2".into(), cp(m)), ("its negative modulo n2".into(), neg(x, m)), ("its negative".into(), x.set_negative(true).unwrap()), ("one more".into(), x.increment().unwrap()), ("itself plus n".into(), x.add(&k.pub_key.n).unwrap()), ("itself plus n2".into(), x.add(m).unwrap()), ("its square".into(), x.sqr(None).unwrap().modulus(m, None).unwrap()), ("itself times n+1".into(), x.mod_mul(&k.pub_key.paillier_group.h, m, None).unwrap()), ("that of another".into(), cp(o))]
    };
    for (w, x) in repl(&ct.u, &again.u) { refused(c, "altered", &|| format!("u is {}", w), &CSCiphertext { u: x, ..copy(&ct) }, label, &k)? }
    for (w, x) in repl(&ct.v, &again.v) { refused(c, "altered", &|| format!("v is {}", w), &CSCiphertext { v: x, ..copy(&ct) }, label, &k)? }
    for i in 0..n {
        for (w, x) in repl(&ct.e[i], &again.e[i]) { let mut y = copy(&ct); y.e[i] = x; refused(c, "altered", &|| format!("e {} is {}", i, w), &y, label, &k)? }
        for j in 0..i { let mut y = copy(&ct); y.e.swap(i, j); refused(c, "altered", &|| format!("e {} and {} swapped", i, j), &y, label, &k)? }
        let mut y = copy(&ct);
        y.e.remove(i);
        refused(c, "altered", &|| format!("e {} left out", i), &y, label, &k)?;
        let mut y = copy(&ct);
        y.e.insert(i, cp(&ct.e[i]));
        refused(c, "altered", &|| format!("e {} twice", i), &y, label, &k)?;
    }
    // the last ciphertexts as part of the label
    for i in 0..n {
        let mut l: Vec<u8> = vec![];
        for e in &ct.e[i..] { l.extend(e.to_bytes().unwrap()) }
        l.extend_from_slice(label);
        let mut y = copy(&ct);
        y.e.truncate(i);
        if open(c, &|| "label boundary".into(), &y, &l, &k)?.is_some() { c.soft("label-boundary", format!("{} of {} messages, the rest in the label: decrypted", i, n)) }
    }
    c.outcome("encrypted");
    Ok(())
}
struct Proof { ct: CSCiphertext, t: CSCiphertext, s: Vec<B>, r: B, r_tilde: B, r_hat: B }
/// Every byte of a label counts, however long it is.
fn labels(c: &mut Ctx) -> R {
    let len = c.pick("length", &[1usize, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 65535, 65536, 65537]);
    c.state(&len);
    let k = big(0, 1);
    let ms = messages(&k, 0, 1);
    let label: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
    let ct = made(c, "encrypt", || format!("label of {} bytes", len), || encrypt(&ms, &label, &k.pub_key))?;
    let got = open(c, &|| "honest".into(), &ct, &label, &k)?;
    c.ensure(got.is_some(), "honest", || format!("label of {} bytes", len))?;
    for more in vec![&[0u8][..], &[1], &[0, 0]] { refused(c, "label", &|| format!("label of {} bytes, {} more", len, more.len()), &ct, &[&label[..], more].concat(), &k)? }
    for i in (0..len).filter(|i| len < 34 || *i < 2 || *i + 2 > len || (i & (i + 1)) == 0 || i & i.wrapping_sub(1) == 0) {
        let mut l = label.clone();
        l[i] ^= 0x80;
        refused(c, "label", &|| format!("label of {} bytes, byte {} changed", len, i), &ct, &l, &k)?;
        refused(c, "label", &|| format!("label of {} bytes, cut to {}", len, i), &ct, &label[..i], &k)?;
    }
    c.outcome("ok");
    Ok(())
}
fn prove(c: &mut Ctx, k: &CSKeypair, ms: &[B], label: &[u8], ch: &B) -> V<Proof> {
    let bl: Vec<B> = ms.iter().map(|_| k.pub_key.n.rand_range().unwrap()).collect();
    let (ct, t, r, r_tilde) = made(c, "prove", || "phase 1".into(), || encrypt_and_prove_phase_1(ms, &bl, label, &k.pub_key))?;
    let r_hat = made(c, "prove", || "phase 2".into(), || encrypt_and_prove_phase_2(&r, &r_tilde, ch, &k.pub_key, None))?;
    let s = (0..ms.len()).map(|i| bl[i].sub(&ch.mul(&ms[i], None).unwrap()).unwrap()).collect();
    Ok(Proof { ct, t, s, r, r_tilde, r_hat })
}
fn judge(c: &mut Ctx, want: bool, key: &str, what: &dyn Fn() -> String, k: &CSKeypair, p: &Proof, ct: &CSCiphertext, s: &[B], r_hat: &B, ch: &B, label: &[u8]) -> R {
    expect(c, want, key, || what(), || reconstruct_blindings_ciphertext(ct, s, r_hat, ch, label, &k.pub_key).map(|t| same(&t, &p.t)))
}
fn proved(c: &mut Ctx) -> R {
    let which = c.choose("modulus", c.q(1, 2));
    let max = 1 + c.choose("supported", 3);
    let n = 1 + c.choose("messages", 4);
    let pat = c.choose("pattern", 3);
    let chal = c.choose("challenge", 4);
    c.state(&(which, max, n, pat, chal));
    let (k, z) = (big(which, max), big(which, max));
    let ms = messages(&k, pat, n);
    let label: &[u8] = b"label";
    let ch = match chal { 0 => get_hash_as_int(&[b"challenge".to_vec()]).unwrap(), 1 => b(1), 2 => b(0), _ => dec("57896044618658097711785492504343953926634992332820282019728792003956564819967") };
    let bl: Vec<B> = ms.iter().map(|_| b(5)).collect();
    for m in 0..n + 2 {
        if m != n { let bl: Vec<B> = (0..m).map(|_| b(5)).collect(); makes(c, false, "count", || format!("{} blindings for {} messages", m, n), || encrypt_and_prove_phase_1(&ms, &bl, label, &k.pub_key))?; }
    }
    makes(c, n <= max, "count", || format!("{} messages of {}", n, max), || encrypt_and_prove_phase_1(&ms, &bl, label, &k.pub_key))?;
    if n > max { return Ok(()) }
    let p = prove(c, &k, &ms, label, &ch)?;
    let got = open(c, &|| "honest".into(), &p.ct, label, &k)?;
    c.ensure(got.as_ref() == Some(&ms), "decrypt", || format!("decrypts to {:?}", got))?;
    judge(c, true, "honest", &|| "honest".into(), &k, &p, &p.ct, &p.s, &p.r_hat, &ch, label)?;
    // r_hat says nothing about r
    if chal == 0 {
        let mut hidden = 0;
        for _ in 0..4 {
            let q = prove(c, &k, &ms, label, &ch)?;
            // r is somewhere near -r_hat / c
            let guess = b(0).sub(&q.r_hat).unwrap().div(&ch, None).unwrap();
            let d = guess.sub(&q.r).unwrap().set_negative(false).unwrap();
            if d > k.pub_key.paillier_group.n_by_4.mul(&b(1 << 40), None).unwrap() { hidden += 1 }
            c.ensure(q.r_tilde != p.r_tilde && q.r != p.r, "fresh", || "two proofs use the same randomness".into())?;
        }
        c.ensure(hidden > 0, "hiding", || "the response gives away the upper bits of the randomness of the ciphertext".into())?;
    }
    if chal != 0 && chal != 3 { return Ok(()) }
    let m = &k.pub_key.paillier_group.modulus;
    for i in 0..n {
        for (w, x) in vec![("one more", p.s[i].increment().unwrap()), ("one less", p.s[i].decrement().unwrap()), ("0", b(0)), ("negated", b(0).sub(&p.s[i]).unwrap())] {
            let mut s = cps(&p.s);
            s[i] = x;
            judge(c, false, "response", &|| format!("s {} is {}", i, w), &k, &p, &p.ct, &s, &p.r_hat, &ch, label)?;
        }
        for j in 0..i { if p.s[i] != p.s[j] { let mut s = cps(&p.s); s.swap(i, j); judge(c, false, "response", &|| format!("s {} and {} swapped", i, j), &k, &p, &p.ct, &s, &p.r_hat, &ch, label)? } }
        // encrypts something else than what is shown
        for x in vec![b(8), cp(&k.pub_key.n).decrement().unwrap()] {
            if x == ms[i] { continue }
            let mut ms2 = cps(&ms);
            ms2[i] = x;
            let q = prove(c, &k, &ms2, label, &ch)?;
            let mut s = cps(&q.s);
            s[i] = q.s[i].add(&ch.mul(&ms2[i], None).unwrap()).unwrap().sub(&ch.mul(&ms[i], None).unwrap()).unwrap();
            judge(c, false, "message", &|| format!("another message {}", i), &k, &q, &q.ct, &s, &q.r_hat, &ch, label)?;
        }
    }
    for (w, x) in vec![("one more", p.r_hat.increment().unwrap()), ("0", b(0)), ("r_tilde", cp(&p.r_tilde)), ("negated", b(0).sub(&p.r_hat).unwrap())] { judge(c, false, "response", &|| format!("r_hat is {}", w), &k, &p, &p.ct, &p.s, &x, &ch, label)? }
    for (w, x) in vec![("one more", ch.increment().unwrap()), ("0", b(0)), ("twice", ch.lshift1().unwrap())] { judge(c, false, "challenge", &|| format!("challenge {}", w), &k, &p, &p.ct, &p.s, &p.r_hat, &x, label)? }
    for l in LABELS.iter() { if *l != label { judge(c, false, "label", &|| format!("label {:?}", l), &k, &p, &p.ct, &p.s, &p.r_hat, &ch, l)? } }
    judge(c, false, "key", &|| "another key".into(), &z, &p, &p.ct, &p.s, &p.r_hat, &ch, label)?;
    for m in 0..n + 2 {
        if m == n { continue }
        let s: Vec<B> = (0..m).map(|i| cp(&p.s[i.min(n - 1)])).collect();
        judge(c, false, "count", &|| format!("{} s values for {} messages", m, n), &k, &p, &p.ct, &s, &p.r_hat, &ch, label)?;
        let mut y = copy(&p.ct);
        y.e = (0..m).map(|i| cp(&p.ct.e[i.min(n - 1)])).collect();
        judge(c, false, "count", &|| format!("{} ciphertexts for {} messages", m, n), &k, &p, &y, &p.s, &p.r_hat, &ch, label)?;
    }
    // what the verifier accepts can be decrypted, to what was shown: a prover that sends an altered
    // ciphertext and makes everything else of it
    let hash = |u: &B, e: &[B]| { let mut a = vec![u.to_bytes().unwrap()]; for x in e { a.push(x.to_bytes().unwrap()) } a.push(label.to_vec()); get_hash_as_int(&a).unwrap() };
    let pw = |x: &B, e: &B| x.mod_exp(e, m, None).unwrap();
    let mm = |x: &B, y: &B| x.mod_mul(y, m, None).unwrap();
    let pg = &k.pub_key.paillier_group;
    for (w, su, se, sv, extra) in (0..32usize).map(|i| (i, i & 1 > 0, i & 2 > 0, i & 4 > 0, i & 24)) {
        let mut u = cp(&p.ct.u);
        if su { u = neg(&u, m) }
        let mut e = cps(&p.ct.e);
        if se { e[n - 1] = neg(&e[n - 1], m) }
        match extra { 8 => e[0] = e[0].add(m).unwrap(), 16 => u = u.add(m).unwrap(), 24 => e.push(pw(&pg.g, &b(3))), _ => () }
        let base = mm(&k.pub_key.y2, &pw(&k.pub_key.y3, &hash(&u, &e)));
        let mut v = pg.abs(&pw(&base, &p.r), None).unwrap();
        if sv { v = neg(&v, m) }
        // the last part of what was committed to
        let t = CSCiphertext { u: cp(&p.t.u), e: cps(&p.t.e), v: pw(&base, &p.r_tilde.lshift1().unwrap()) };
        let ct = CSCiphertext { u, e, v };
        let what = || format!("u {} e {} v {}{}", if su { "negated" } else { "" }, if se { "negated" } else { "" }, if sv { "negated" } else { "" }, match extra { 8 => " n2 added to e", 16 => " n2 added to u", 24 => " one more e", _ => "" });
        let acc = verdict(c, "crafted", what, || reconstruct_blindings_ciphertext(&ct, &p.s, &p.r_hat, &ch, label, &k.pub_key))?.map_or(false, |x| same(&x, &t));
        if w == 0 { c.ensure(acc, "crafted", || "the ciphertext as it should be was refused".into()).ok(); }
        let got = open(c, &what, &ct, label, &k)?;
        if acc { c.ensure(got.as_ref() == Some(&ms), "crafted", || format!("{}: accepted, decrypts to {:?}", what(), got))? }
        c.outcome(if acc { "accepted" } else { "refused" });
    }
    Ok(())
}
/// Keys as they are made, at full size.
fn keys(c: &mut Ctx) -> R {
    let n = if c.thorough() { c.choose("messages", 5) } else { c.pick("messages", &[0usize, 3]) };
    let k = match verdict(c, "keys", || format!("keys for {} messages", n), || CSKeypair::new(n))? {
        None => return c.ensure(n == 0, "keys", || format!("keys for {} messages", n)),
        Some(k) => k,
    };
    c.ensure(n > 0 && k.pub_key.y1.len() == n && k.pri_key.x1.len() == n, "keys", || format!("keys for {} messages", n))?;
    let (pk, sk) = (&k.pub_key, &k.pri_key);
    let pg = &pk.paillier_group;
    let m = pk.n.sqr(None).unwrap();
    c.ensure(pk.n.num_bits().unwrap() >= 2046, "keys", || "size of the modulus".into())?;
    c.ensure(pg.modulus == m && pg.n_by_4 == pk.n.rshift(2).unwrap() && pg.h == pk.n.increment().unwrap() && pk.two_inv_times_2 == pk.n.increment().unwrap(), "keys", || "group".into())?;
    for i in 0..n { c.ensure(pg.g.mod_exp(&sk.x1[i], &m, None).unwrap() == pk.y1[i], "keys", || "y1".into())?; }
    c.ensure(pg.g.mod_exp(&sk.x2, &m, None).unwrap() == pk.y2 && pg.g.mod_exp(&sk.x3, &m, None).unwrap() == pk.y3, "keys", || "y2, y3".into())?;
    // every secret is drawn from the whole range
    let full = pg.modulus.rshift(2).unwrap();
    for (i, x) in sk.x1.iter().chain(vec![&sk.x2, &sk.x3]).enumerate() {
        c.ensure(*x < full && x.num_bits().unwrap() + 64 > full.num_bits().unwrap(), "keys:range", || format!("secret {} of {} has {} bits", i, n + 2, x.num_bits().unwrap()))?;
    }
    let mut xs: Vec<String> = sk.x1.iter().chain(vec![&sk.x2, &sk.x3]).map(|x| x.to_dec().unwrap()).collect();
    xs.sort();
    xs.dedup();
    c.ensure(xs.len() == n + 2, "keys", || "secrets are equal".into())?;
    // so is what hides the messages, and what hides that in the proof is larger by challenge and slack
    let small = pg.modulus.num_bits().unwrap() / 2 - 2;
    for i in 0..3 {
        let ms = messages(&k, i, n);
        let bl: Vec<B> = (0..n).map(|_| b(5)).collect();
        let (_, _, r, r_tilde) = made(c, "prove", || "full size".into(), || encrypt_and_prove_phase_1(&ms, &bl, b"label", pk))?;
        c.ensure(r.num_bits().unwrap() + 64 > small, "keys:range", || format!("encrypted with a random value of {} bits", r.num_bits().unwrap()))?;
        c.ensure(r_tilde.num_bits().unwrap() + 64 > small + 256 + 80, "keys:range", || format!("proved with a random value of {} bits", r_tilde.num_bits().unwrap()))?;
    }
    let ms = messages(&k, 2, n);
    let ct = made(c, "encrypt", || "full size".into(), || encrypt(&ms, b"label", pk))?;
    let got = open(c, &|| "full size".into(), &ct, b"label", &k)?;
    c.ensure(got.as_ref() == Some(&ms), "decrypt", || format!("decrypts to {:?}", got))?;
    Ok(())
}
pub fn build(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    Check {
        rule: "A ciphertext decrypts to exactly what was encrypted, under its label and key only; what the verifier of a proof accepts decrypts to the messages it is about, and the proof hides the randomness".into(),
        assumptions: vec!["arithmetic of OpenSSL".into(), "moduli of 256 and 512 bits stand for those of 2048 bits".into(), "decisional composite residuosity, collision resistance of SHA-256".into()],
        scenarios: vec![
            Scenario::new("tiny", "3 moduli up to 1357, every message, up to 3 at once; 2744 malformed ciphertexts each", tiny),
            Scenario::new("encrypted", "up to 4 messages, keys for up to 3, 6 labels, every part replaced in 12 ways", encrypted),
            Scenario::new("labels", "23 lengths up to 65537 bytes, every byte at an edge or a power of two changed, every cut there", labels),
            Scenario::new("proved", "up to 4 messages, keys for up to 3, 4 challenges, every part replaced; 32 crafted ciphertexts", proved),
            Scenario::new("keys", format!("keys of 2048 bits for {} messages", if th { "up to 4" } else { "0 and 3" }), keys),
        ],
    }
}
