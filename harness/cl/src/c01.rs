//! C01: issuance. Honest runs yield a usable credential; altered ones do not.
use crate::world::*;
use mc::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

/// All the messages of one complete exchange.
struct Sess {
    vals: Vals,
    n1: Nonce,
    n2: Nonce,
    bs: BlindedCredentialSecrets,
    bf: CredentialSecretsBlindingFactors,
    bp: BlindedCredentialSecretsCorrectnessProof,
    sig: CredentialSignature,
    scp: SignatureCorrectnessProof,
    rev: Option<(RevocationRegistry, Witness)>,
}
fn session(i: &Iss, vals: Vals, r: Option<(&Reg, u32)>) -> Sess {
    let n1 = new_nonce().unwrap();
    let n2 = new_nonce().unwrap();
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&vals), &n1).unwrap();
    let (sig, scp, rev) = sign(i, &bs, &bp, &n1, &n2, &vals, r).unwrap();
    Sess { vals, n1, n2, bs, bf, bp, sig, scp, rev }
}
#[allow(clippy::type_complexity)]
fn sign(
    i: &Iss,
    bs: &BlindedCredentialSecrets,
    bp: &BlindedCredentialSecretsCorrectnessProof,
    n1: &Nonce,
    n2: &Nonce,
    vals: &Vals,
    r: Option<(&Reg, u32)>,
) -> U<(CredentialSignature, SignatureCorrectnessProof, Option<(RevocationRegistry, Witness)>)> {
    match r {
        None => {
            let (s, p) = Issuer::sign_credential(PROVER_ID, bs, bp, n1, n2, &values(&known(vals)), &i.pk, &i.sk)?;
            Ok((s, p, None))
        }
        Some((r, idx)) => {
            let mut reg = r.reg0.clone();
            let (s, p, d) = Issuer::sign_credential_with_revoc(
                PROVER_ID, bs, bp, n1, n2, &values(&known(vals)), &i.pk, &i.sk, idx, r.max, r.by_default, &mut reg, &r.priv_, &r.tails,
            )?;
            let mut total = empty_delta(&r.reg0);
            if let Some(d) = &d {
                total.merge(d)?;
            }
            let w = Witness::new(idx, r.max, r.by_default, &total, &r.tails)?;
            Ok((s, p, Some((reg, w))))
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn process(
    i: &Iss,
    sig: &CredentialSignature,
    scp: &SignatureCorrectnessProof,
    bf: &CredentialSecretsBlindingFactors,
    vals: &Vals,
    n2: &Nonce,
    r: Option<(&Reg, &RevocationRegistry, &Witness)>,
) -> U<CredentialSignature> {
    let mut s = clone(sig);
    Prover::process_credential_signature(
        &mut s,
        &values(vals),
        scp,
        bf,
        &i.pk,
        n2,
        r.map(|x| &x.0.pubk),
        r.map(|x| x.1),
        r.map(|x| x.2),
    )?;
    Ok(s)
}

fn honest(w: &World, regs: &[Reg], c: &mut Ctx) -> R {
    let i = &w.i1;
    let kinds: Vec<Kind> = ["age", "name", "sex"].iter().map(|a| c.pick(a, &[Kind::Known, Kind::Hidden])).collect();
    let rev = c.choose("revocation", 3);
    let odd = c.pick("value", &["28", "0", "1", "-7", MAX256]);
    let vals: Vals = vec![
        ("master_secret", Kind::Hidden, MS1.into()),
        ("age", kinds[0], odd.into()),
        ("name", kinds[1], NAME.into()),
        ("sex", kinds[2], "1".into()),
    ];
    let r = if rev == 0 { None } else { Some((&regs[rev - 1], 2u32)) };
    let s = match guard(|| -> U<Sess> {
        let n1 = new_nonce()?;
        let n2 = new_nonce()?;
        let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&vals), &n1)?;
        let (sig, scp, rev) = sign(i, &bs, &bp, &n1, &n2, &vals, r)?;
        Ok(Sess { vals: vals.clone(), n1, n2, bs, bf, bp, sig, scp, rev })
    }) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return violation("honest:refused", format!("issuance of {:?}: {}", vals, e)),
        Err(p) => return violation("honest:panic", format!("issuance of {:?}: {}", vals, p)),
    };
    c.steps(2);
    let pr = r.map(|(reg, _)| {
        let (a, b) = s.rev.as_ref().unwrap();
        (reg, a, b)
    });
    let sig = match guard(|| process(i, &s.sig, &s.scp, &s.bf, &vals, &s.n2, pr)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return violation("honest:refused", format!("processing {:?}: {}", vals, e)),
        Err(p) => return violation("honest:panic", format!("processing {:?}: {}", vals, p)),
    };
    c.state(&(&kinds, rev, odd));
    let cred = Cred { sig, vals: vals.clone() };
    let nonce = new_nonce().unwrap();
    // Usable: everything hidden, and everything revealed.
    for revealed in &[vec![], vec!["age", "name", "sex"]] {
        let q = req(revealed, &[]);
        let part = Part { iss: i, cred: &cred, req: q.clone(), rev: pr.map(|x| (x.1, x.2)) };
        let want = match pr {
            Some((reg, a, _)) => Want::of(i, &q).rev(&reg.pubk, a),
            None => Want::of(i, &q),
        };
        let v = judge(|| verify(&prove(&[part], &["master_secret"], &nonce)?, &[want], &["master_secret"], &nonce));
        expect(c, v, true, "honest:presentation", || format!("presentation revealing {:?} of {:?}", revealed, vals))?;
    }
    Ok(())
}

/// Committed attributes: proven at issuance, not part of the credential.
fn committed(w: &World, c: &mut Ctx) -> R {
    let i = &w.i1;
    let sub = c.subset("committed", 3);
    if sub.is_empty() {
        c.outcome("nothing committed");
        return Ok(());
    }
    let val = c.pick("value", &["5", "0", MAX256]);
    let other = c.flag("others hidden");
    let mut vals: Vals = vec![("master_secret", Kind::Hidden, MS1.into())];
    for (k, a) in ["age", "name", "sex"].iter().enumerate() {
        vals.push(if sub.contains(&k) { (*a, Kind::Commit, val.into()) } else { (*a, if other { Kind::Hidden } else { Kind::Known }, "7".into()) });
    }
    let cred = match guard(|| issue(i, &vals, PROVER_ID)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return violation("commit:refused", format!("{:?}: {}", vals, e)),
        Err(p) => return violation("commit:panic", format!("{:?}: {}", vals, p)),
    };
    c.step();
    c.state(&(&sub, val, other));
    // The credential does not carry the committed value: it verifies with the value zero only.
    for claim in &["0", "5", MAX256] {
        let mut v2 = vals.clone();
        for x in v2.iter_mut() {
            if x.1 == Kind::Commit {
                x.1 = Kind::Known;
                x.2 = claim.to_string();
            }
        }
        let cr = Cred { sig: clone(&cred.sig), vals: v2 };
        let which: Vec<&'static str> = vals.iter().filter(|x| x.1 == Kind::Commit).map(|x| x.0).collect();
        let q = req(&which, &[]);
        let nonce = new_nonce().unwrap();
        let v = judge(|| verify(&prove(&[Part { iss: i, cred: &cr, req: q.clone(), rev: None }], &[], &nonce)?, &[Want::of(i, &q)], &[], &nonce));
        expect(c, v, *claim == "0", "commit:presentation", || format!("claiming {:?}={} of {:?}", which, claim, vals))?;
    }
    // A holder whose commitment does not open as proven is refused.
    Ok(())
}

pub fn mutants(v: &Value, other: Option<&Value>, sibling: Option<&Value>) -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    if let Value::String(s) = v {
        let is_dec = !s.is_empty() && s.chars().enumerate().all(|(i, ch)| ch.is_ascii_digit() || (i == 0 && ch == '-'));
        if is_dec {
            let x = bn(s);
            out.push(("zero".into(), json!("0")));
            out.push(("one".into(), json!("1")));
            out.push(("plus-one".into(), json!(x.increment().unwrap().to_dec().unwrap())));
            out.push(("minus-one".into(), json!(x.decrement().unwrap().to_dec().unwrap())));
            out.push(("doubled".into(), json!(x.add(&x).unwrap().to_dec().unwrap())));
        } else if !s.is_empty() && !s.contains(' ') && s.chars().all(|ch| ch.is_ascii_hexdigit()) {
            // a scalar in hexadecimal: flip the last digit
            let mut t = s.clone();
            let last = t.pop().unwrap();
            t.push(if last == '0' { '1' } else { '0' });
            out.push(("last-digit".into(), json!(t)));
        }
    }
    if let Value::Number(n) = v {
        if let Some(k) = n.as_u64() {
            out.push(("plus-one".into(), json!(k + 1)));
            out.push(("zero".into(), json!(0)));
        }
    }
    if let Some(o) = other {
        out.push(("other-session".into(), o.clone()));
    }
    if let Some(o) = sibling {
        out.push(("sibling".into(), o.clone()));
    }
    out.retain(|(_, x)| x != v);
    out
}
/// Every single-element alteration of a JSON message: leaf mutations, removals.
pub fn alterations(doc: &Value, other: Option<&Value>) -> Vec<(String, Value)> {
    let ls = jsonmut::leaves(doc);
    let mut out = vec![];
    for (k, p) in ls.iter().enumerate() {
        let v = jsonmut::get(doc, p);
        let o = other.and_then(|o| o.pointer(p));
        let sib = if ls.len() > 1 { Some(jsonmut::get(doc, &ls[(k + 1) % ls.len()])) } else { None };
        for (m, x) in mutants(v, o, sib) {
            out.push((format!("{} {}", p, m), jsonmut::with(doc, p, x)));
        }
    }
    for p in ls.iter().cloned().chain(jsonmut::containers(doc)) {
        if !p.is_empty() {
            out.push((format!("{} removed", p), jsonmut::without(doc, &p)));
        }
    }
    out
}

fn tamper_key(w: &World, c: &mut Ctx) -> R {
    let i = &w.i2;
    let vals = vals2(MS1, "28", "5");
    let nonce = new_nonce().unwrap();
    let kind = c.choose("message", 2);
    let (doc, other) = if kind == 0 {
        let mut o = jval(&w.i1.kcp);
        // the other issuer's proof has another attribute set; make it comparable
        let _ = &mut o;
        (jval(&i.kcp), jval(&w.i1.kcp))
    } else {
        (jval(&i.pk.get_primary_key().unwrap()), jval(&w.i1.pk.get_primary_key().unwrap()))
    };
    let alts = alterations(&doc, Some(&other));
    let a = c.choose("alteration", alts.len());
    let (name, altered) = &alts[a];
    c.note(name.clone());
    // Not covered by the key correctness proof: the context base, and the proof of the
    // master-secret base (version-1 proofs did not have it).
    if kind == 1 && (name.starts_with("/rctxt") || (name.starts_with("/r/") && name.ends_with("removed") && false)) {
        c.outcome("not covered by the proof");
        return Ok(());
    }
    let v = if kind == 0 {
        let kcp: CredentialKeyCorrectnessProof = match unj(altered) {
            Ok(x) => x,
            Err(_) => {
                c.outcome("refused (not decodable)");
                c.step();
                return Ok(());
            }
        };
        if jval(&kcp) == doc {
            c.outcome("same value");
            return Ok(());
        }
        judge(|| Prover::blind_credential_secrets(&i.pk, &kcp, &values(&vals), &nonce).map(|_| true))
    } else {
        let ppk: CredentialPrimaryPublicKey = match unj(altered) {
            Ok(x) => x,
            Err(_) => {
                c.outcome("refused (not decodable)");
                c.step();
                return Ok(());
            }
        };
        let pk = CredentialPublicKey::build_from_parts(&ppk, None).unwrap();
        judge(|| Prover::blind_credential_secrets(&pk, &i.kcp, &values(&vals), &nonce).map(|_| true))
    };
    c.state(&(kind, name));
    expect(c, v, false, "tamper-key", || format!("key message altered: {}", name))
}

fn int(v: &Value) -> BigInt {
    v.as_str().expect("number").parse().expect("dec")
}
fn prime(x: &BigInt) -> bool {
    bn(&x.to_string()).is_prime(None).unwrap()
}
fn next_prime(x: &BigInt, up: bool) -> BigInt {
    let mut y = x.clone();
    while !prime(&y) {
        y += if up { 1 } else { -1 };
    }
    y
}
/// An issuer that signs with an exponent of its own choice, and proves it.  The holder takes it
/// exactly if it is a prime of the agreed range: with any other the credential cannot be shown.
fn issuer(w: &World, c: &mut Ctx) -> R {
    let two = c.flag("second issuer");
    let i = if two { &w.i2 } else { &w.i1 };
    let vals = if two { vals2(MS1, "28", "5") } else { std_vals(MS1, "28", NAME) };
    let one = BigInt::one();
    let start: BigInt = &one << 596u32;
    let end: BigInt = &start + (&one << 119u32);
    let near = |x: BigInt| next_prime(&x, true);
    let kinds = [
        "lowest", "highest", "middle", "product of two", "multiple of 3", "product of three", "even", "one", "two", "three", "65537", "short prime", "below", "above", "far above", "twice the start", "negative", "zero",
    ];
    let k = c.choose("exponent", kinds.len());
    let e: BigInt = match k {
        0 => near(start.clone()),
        1 => next_prime(&end, false),
        2 => near(&start + (&one << 118u32)),
        3 => {
            let a = near(&one << 100u32);
            let b = near(&start / &a + 1);
            a * b
        }
        4 => (&start + 5) / 3 * 3,
        5 => {
            let a = near(&one << 50u32) * near(&one << 51u32);
            let b = near(&start / &a + 1);
            a * b
        }
        6 => &start + 2,
        7 => one.clone(),
        8 => BigInt::from(2),
        9 => BigInt::from(3),
        10 => BigInt::from(65537),
        11 => near(&one << 256u32),
        12 => next_prime(&(&start - 1), false),
        13 => near(&end + 1),
        14 => near(&start + (&one << 300u32)),
        15 => near(&one << 597u32),
        16 => -near(start.clone()),
        _ => BigInt::zero(),
    };
    let good = k < 3;
    assert!(k != 3 && k != 5 || (e >= start && e <= end), "{}", kinds[k]);
    c.state(&(two, k));
    let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&vals), &n1).unwrap();
    let (sig, scp, _) = sign(i, &bs, &bp, &n1, &n2, &vals, None).unwrap();
    let _ = scp;
    // Q of the signature, and another root of it
    let mut s = jval(&sig);
    let (pk, sk) = (jval(&i.pk), jval(&i.sk));
    let n = int(&pk["p_key"]["n"]);
    let order = int(&sk["p_key"]["p"]) * int(&sk["p_key"]["q"]);
    let q = int(&s["p_credential"]["a"]).modpow(&int(&s["p_credential"]["e"]), &n);
    let g = e.mod_floor(&order).extended_gcd(&order);
    let root = if g.gcd.is_one() { g.x.mod_floor(&order) } else { one.clone() };
    let a = q.modpow(&root, &n);
    let r: BigInt = &order / 3 * 2;
    let bytes = |x: &BigInt| x.to_bytes_be().1;
    let mut h = bytes(&q);
    h.extend(bytes(&a));
    h.extend(bytes(&q.modpow(&r, &n)));
    h.extend(bn(n2_dec(&n2).as_str()).to_bytes().unwrap());
    let ch = int(&json!(bn_of_hash(&h)));
    let se = (&r - &ch * &root).mod_floor(&order);
    s["p_credential"]["a"] = json!(a.to_string());
    s["p_credential"]["e"] = json!(e.to_string());
    let proof = json!({"c": ch.to_string(), "se": se.to_string()});
    let sig: CredentialSignature = match unj(&s) {
        Ok(x) => x,
        Err(_) => {
            c.outcome("refused (not decodable)");
            return c.ensure(!good, "issuer", || format!("exponent {} is not decodable", kinds[k]));
        }
    };
    let scp: SignatureCorrectnessProof = unj(&proof).unwrap();
    let mut out = None;
    let v = judge(|| {
        out = Some(process(i, &sig, &scp, &bf, &vals, &n2, None)?);
        Ok(true)
    });
    expect(c, v, good, "issuer", || format!("the issuer signs with the exponent {} ({} bits)", kinds[k], e.bits()))?;
    if let Some(sig) = out {
        let cred = Cred { sig, vals: vals.clone() };
        let nonce = new_nonce().unwrap();
        let q = req(&["age"], &[]);
        let v = judge(|| verify(&prove(&[Part { iss: i, cred: &cred, req: q.clone(), rev: None }], &["master_secret"], &nonce)?, &[Want::of(i, &q)], &["master_secret"], &nonce));
        expect(c, v, true, "issuer:presentation", || format!("exponent {}", kinds[k]))?;
    }
    Ok(())
}
fn n2_dec(n: &Nonce) -> String {
    jval(n).as_str().unwrap().to_string()
}
fn bn_of_hash(b: &[u8]) -> String {
    ursa::bn::BigNumber::from_bytes(&ursa::bn::BigNumber::hash(b).unwrap()).unwrap().to_dec().unwrap()
}
/// Attributes of any names.
fn names(i: &Iss, reg: &Reg, c: &mut Ctx) -> R {
    let at = &i.attrs;
    // one is hidden, one is revealed, one is the subject of a predicate, all others are known
    let k = c.choose("shown", at.len());
    let h = if c.thorough() { c.choose("hidden", at.len() + 1) } else { [k, (k + 1) % at.len(), at.len()][c.choose("hidden", 3)] };
    let rev = c.flag("revocation");
    let pr = (k + 1) % at.len();
    c.state(&(h, k, rev));
    let mut vals: Vals = vec![("master_secret", Kind::Hidden, MS1.into())];
    for (j, a) in at.iter().enumerate() {
        vals.push((*a, if j == h { Kind::Hidden } else { Kind::Known }, (20 + j).to_string()));
    }
    let s = match guard(|| -> U<Sess> {
        let (n1, n2) = (new_nonce()?, new_nonce()?);
        let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&vals), &n1)?;
        let (sig, scp, rev) = sign(i, &bs, &bp, &n1, &n2, &vals, if rev { Some((reg, 2)) } else { None })?;
        Ok(Sess { vals: vals.clone(), n1, n2, bs, bf, bp, sig, scp, rev })
    }) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return violation("names:refused", format!("issuance of {:?}: {}", vals, e)),
        Err(p) => return violation("names:panic", format!("issuance of {:?}: {}", vals, p)),
    };
    let pr0 = s.rev.as_ref().map(|(a, b)| (reg, a, b));
    let sig = match guard(|| process(i, &s.sig, &s.scp, &s.bf, &vals, &s.n2, pr0)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return violation("names:refused", format!("processing {:?}: {}", vals, e)),
        Err(p) => return violation("names:panic", format!("processing {:?}: {}", vals, p)),
    };
    let cred = Cred { sig, vals: vals.clone() };
    let nonce = new_nonce().unwrap();
    let q = req(&[at[k]], &[(at[pr], "GE", (20 + pr) as i32), (at[pr], "LT", 100)]);
    let mk = |cred: &Cred, q: &Req| prove(&[Part { iss: i, cred, req: q.clone(), rev: pr0.map(|x| (x.1, x.2)) }], &["master_secret"], &nonce);
    let want = |q: &Req| match pr0 {
        Some((reg, a, _)) => Want::of(i, q).rev(&reg.pubk, a),
        None => Want::of(i, q),
    };
    let v = judge(|| verify(&mk(&cred, &q)?, &[want(&q)], &["master_secret"], &nonce));
    expect(c, v, true, "names:presentation", || format!("showing {:?} and a predicate about {:?}", at[k], at[pr]))?;
    // the predicate is false
    let bad = req(&[at[k]], &[(at[pr], "GT", (20 + pr) as i32)]);
    let v = judge(|| verify(&mk(&cred, &bad)?, &[want(&bad)], &["master_secret"], &nonce));
    expect(c, v, false, "names:predicate", || format!("a false predicate about {:?}", at[pr]))?;
    // two values exchanged
    for j in 0..at.len() {
        if j == k || !c.thorough() && (j + at.len() - k) % at.len() > 2 {
            continue;
        }
        let mut v2 = vals.clone();
        v2[1 + j].2 = vals[1 + k].2.clone();
        v2[1 + k].2 = vals[1 + j].2.clone();
        let other = Cred { sig: clone(&cred.sig), vals: v2 };
        let q = req(&[at[k]], &[]);
        let v = judge(|| verify(&mk(&other, &q)?, &[want(&q)], &["master_secret"], &nonce));
        expect(c, v, false, "names:exchanged", || format!("the values of {:?} and {:?} exchanged", at[k], at[j]))?;
        // asked for another attribute than was shown
        let o = req(&[at[j]], &[]);
        let v = judge(|| verify(&mk(&cred, &q)?, &[want(&o)], &["master_secret"], &nonce));
        expect(c, v, false, "names:other", || format!("{:?} shown, {:?} asked for", at[k], at[j]))?;
    }
    Ok(())
}
const NAMES: [&str; 9] = [
    "", " ", "A", "a", "\u{e9}\u{4e2d}\u{1F511}", "a\"\\\u{1}\n",
    "an attribute of which the name has exactly sixty-four characters.",
    "an attribute of which the name has exactly sixty-four characters.1",
    "an attribute of which the name is a very long text, as some have: longer than a block of the hash function, longer than two of them, and longer than a byte can count, if only the author could think of something more to say about it: so it is written again: an attribute",
];
/// The context of a credential is another for every holder and index.
const LONG: &str = "a name that is longer than a hash is, by far, and then some more of it";
fn context(w: &World, r: &crate::large::Big, known: &Memo<(usize, u32), (String, Vec<String>)>, c: &mut Ctx) -> R {
    let ids: Vec<String> = vec!["".into(), "a".into(), "b".into(), "aa".into(), "1".into(), PROVER_ID.into(), format!("{}1", LONG), format!("{}2", LONG)];
    let mut at: Vec<u32> = vec![0, 1, 2, 11, 12];
    for k in &[7u32, 8, 15, 16, 24, 30] {
        at.extend_from_slice(&[(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    at.push(r.max);
    let i = &w.i1;
    let of = |p: usize, k: u32| -> Result<(String, Vec<String>), Violation> {
        known
            .get(&(p, k), || -> Result<(String, Vec<String>), Violation> {
                let vals: Vals = vec![("master_secret", Kind::Hidden, MS1.into()), ("age", Kind::Known, "1".into()), ("name", Kind::Known, "2".into()), ("sex", Kind::Known, "3".into())];
                let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
                let (bs, _, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&vals), &n1).unwrap();
                let kv = values(&known_of(&vals));
                let s = if k == 0 {
                    guard(|| Issuer::sign_credential(&ids[p], &bs, &bp, &n1, &n2, &kv, &i.pk, &i.sk).map(|x| x.0))
                } else {
                    let mut reg = r.reg0.clone();
                    guard(|| Issuer::sign_credential_with_revoc(&ids[p], &bs, &bp, &n1, &n2, &kv, &i.pk, &i.sk, k, r.max, false, &mut reg, &r.priv_, &r.tails).map(|x| x.0))
                };
                match s {
                    Ok(Ok(s)) => {
                        let s = jval(&s);
                        let drawn = ["c", "vr_prime_prime"].iter().filter_map(|n| s["r_credential"][n].as_str().map(|v| v.trim_start_matches('0').to_string())).collect();
                        Ok((s["p_credential"]["m_2"].to_string(), drawn))
                    }
                    Ok(Err(e)) => Err(Violation { key: "context:refused".into(), msg: format!("holder {:?} index {}: {}", ids[p], k, e) }),
                    Err(e) => Err(Violation { key: "context:panic".into(), msg: format!("holder {:?} index {}: {}", ids[p], k, e) }),
                }
            })
            .map(|x| (*x).clone())
    };
    let p = c.choose("holder", ids.len());
    let k = c.pick("index", &at);
    c.state(&(p, k));
    let (x, mine) = of(p, k)?;
    // what hides the index in the revocation signature is drawn anew for each, from the whole group
    c.ensure(mine.len() == if k == 0 { 0 } else { 2 }, "drawn:shape", || format!("{:?}", mine))?;
    c.ensure(mine.iter().all(|v| v.len() >= 48), "drawn:short", || format!("holder {:?} index {}: {:?}", ids[p], k, mine))?;
    for q in 0..ids.len() {
        // all indexes of the same holder, and the same and the first few of every other
        for j in at.iter().filter(|j| q == p || **j == k || **j < 3) {
            if (q, *j) != (p, k) {
                let (y, theirs) = of(q, *j)?;
                c.step();
                c.ensure(mine.iter().all(|v| !theirs.contains(v)), "drawn:again", || format!("holder {:?} index {} and holder {:?} index {} share randomness: {:?}", ids[p], k, ids[q], j, mine))?;
                c.ensure(x != y, "context", || format!("holder {:?} index {} and holder {:?} index {} have the same context (0 is none)", ids[p], k, ids[q], j))?;
            }
        }
    }
    c.outcome("ok");
    Ok(())
}
fn known_of(v: &Vals) -> Vals {
    known(v)
}
struct Pair2 {
    a: Sess,
    b: Sess,
}

/// The holder's request, altered on the way to the issuer.
fn tamper_request(w: &World, regs: &[Reg], p: &Pair2, p2: &Pair2, c: &mut Ctx) -> R {
    let i = &w.i1;
    // the second exchange has two hidden and two committed attributes, and no revocation
    let many = c.flag("many");
    let (p, regs): (&Pair2, &[Reg]) = if many { (p2, &[]) } else { (p, regs) };
    let kind = c.choose("message", 3);
    let (doc, other) = match kind {
        0 => (jval(&p.a.bs), jval(&p.b.bs)),
        1 => (jval(&p.a.bp), jval(&p.b.bp)),
        _ => (json!([jval(&p.a.n1)]), json!([jval(&p.b.n1)])),
    };
    let alts = alterations(&doc, Some(&other));
    let a = c.choose("alteration", alts.len());
    let (name, altered) = &alts[a];
    c.note(name.clone());
    c.state(&(many, kind, name));
    if many && kind == 0 && name.starts_with("/ur") {
        c.outcome("not used without revocation");
        return Ok(());
    }
    let bs: Result<BlindedCredentialSecrets, _> = unj(if kind == 0 { altered } else { return_ref(&doc, kind, 0, p) });
    let bp: Result<BlindedCredentialSecretsCorrectnessProof, _> = unj(&if kind == 1 { altered.clone() } else { jval(&p.a.bp) });
    let n1: Result<Nonce, _> = if kind == 2 {
        match altered.get(0) {
            Some(x) => unj(x),
            None => Err("removed".into()),
        }
    } else {
        Ok(clone(&p.a.n1))
    };
    let (bs, bp, n1) = match (bs, bp, n1) {
        (Ok(a), Ok(b), Ok(d)) => (a, b, d),
        _ => {
            c.step();
            c.outcome("refused (not decodable)");
            return Ok(());
        }
    };
    let mut out = None;
    let v = judge(|| {
        out = Some(sign(i, &bs, &bp, &n1, &p.a.n2, &p.a.vals, regs.first().map(|r| (r, 2)))?);
        Ok(true)
    });
    if !many && kind == 0 && name.starts_with("/ur") {
        // The revocation blinding is not covered by the proof; the holder must notice.
        c.step();
        if let Some((sig, scp, rev)) = out {
            let (reg, wit) = rev.unwrap();
            let v = judge(|| process(i, &sig, &scp, &p.a.bf, &p.a.vals, &p.a.n2, Some((&regs[0], &reg, &wit))).map(|_| true));
            return expect(c, v, false, "tamper-ur", || format!("blinded secrets altered: {}", name));
        }
        if let Verdict::Panicked(m) = v {
            return violation("tamper-request:panic", format!("altered: {}: panic: {}", name, m));
        }
        return Ok(());
    }
    expect(c, v, false, "tamper-request", || format!("blinded secrets or their proof altered: {}", name))
}
fn return_ref<'a>(_doc: &'a Value, _kind: usize, _k: usize, p: &Pair2) -> &'a Value {
    Box::leak(Box::new(jval(&p.a.bs)))
}

/// The issuer's answer, altered on the way to the holder.
fn tamper_answer(w: &World, regs: &[Reg], p: &Pair2, c: &mut Ctx) -> R {
    let i = &w.i1;
    let kind = c.choose("message", 3);
    let (doc, other) = match kind {
        0 => (jval(&p.a.sig), jval(&p.b.sig)),
        1 => (jval(&p.a.scp), jval(&p.b.scp)),
        _ => (json!([jval(&p.a.n2)]), json!([jval(&p.b.n2)])),
    };
    let alts = alterations(&doc, Some(&other));
    let a = c.choose("alteration", alts.len());
    let (name, altered) = &alts[a];
    c.note(name.clone());
    c.state(&(kind, name));
    if kind == 0 && (name.starts_with("/r_credential/i ") || name == "/r_credential removed") {
        // The index travels for the holder's convenience: it decides no equation of the
        // credential, only which witness the holder computes.  Without its revocation part
        // the credential is an ordinary one.
        c.outcome("not covered");
        return Ok(());
    }
    let sig: Result<CredentialSignature, _> = unj(&if kind == 0 { altered.clone() } else { jval(&p.a.sig) });
    let scp: Result<SignatureCorrectnessProof, _> = unj(&if kind == 1 { altered.clone() } else { jval(&p.a.scp) });
    let n2: Result<Nonce, _> = if kind == 2 {
        match altered.get(0) {
            Some(x) => unj(x),
            None => Err("removed".into()),
        }
    } else {
        Ok(clone(&p.a.n2))
    };
    let (sig, scp, n2) = match (sig, scp, n2) {
        (Ok(a), Ok(b), Ok(d)) => (a, b, d),
        _ => {
            c.step();
            c.outcome("refused (not decodable)");
            return Ok(());
        }
    };
    let (reg, wit) = p.a.rev.as_ref().unwrap();
    let v = judge(|| process(i, &sig, &scp, &p.a.bf, &p.a.vals, &n2, Some((&regs[0], reg, wit))).map(|_| true));
    expect(c, v, false, "tamper-answer", || format!("signature, its proof or the nonce altered: {}", name))
}

/// Two exchanges run side by side; every mixture of their messages.
fn sessions(w: &World, regs: &[Reg], p: &Pair2, c: &mut Ctx) -> R {
    let i = &w.i1;
    let s = [&p.a, &p.b];
    if c.flag("to the holder") {
        let k: Vec<usize> = ["signature", "proof", "blinding", "nonce", "values", "registry"].iter().map(|l| c.choose(l, 2)).collect();
        let (reg, wit) = s[k[5]].rev.as_ref().unwrap();
        let v = judge(|| {
            process(i, &s[k[0]].sig, &s[k[1]].scp, &s[k[2]].bf, &s[k[4]].vals, &s[k[3]].n2, Some((&regs[0], reg, wit))).map(|_| true)
        });
        c.state(&(1, &k));
        let same = k.iter().all(|x| *x == k[0]);
        expect(c, v, same, "sessions", || format!("signature, proof, blinding, nonce, values, registry of sessions {:?}", k))
    } else {
        let k: Vec<usize> = ["secrets", "proof", "nonce"].iter().map(|l| c.choose(l, 2)).collect();
        let v = judge(|| sign(i, &s[k[0]].bs, &s[k[1]].bp, &s[k[2]].n1, &p.a.n2, &s[k[0]].vals, None).map(|_| true));
        c.state(&(0, &k));
        let same = k.iter().all(|x| *x == k[0]);
        expect(c, v, same, "sessions", || format!("secrets, proof, nonce of sessions {:?}", k))
    }
}

/// A holder that also blinds attributes the issuer knows, to have other values signed.
fn overlap(w: &World, regs: &[Reg], c: &mut Ctx) -> R {
    let i = &w.i1;
    let sub = c.subset("also hidden", 3);
    let rev = c.flag("revocation");
    let extra = c.pick("added value", &["100", "1"]);
    let attrs = ["age", "name", "sex"];
    let mut hv: Vals = vec![("master_secret", Kind::Hidden, MS1.into())];
    for k in &sub {
        hv.push((attrs[*k], Kind::Hidden, extra.into()));
    }
    let kv: Vals = attrs.iter().map(|a| (*a, Kind::Known, "18".to_string())).collect();
    let n1 = new_nonce().unwrap();
    let n2 = new_nonce().unwrap();
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &values(&hv), &n1).unwrap();
    let r = if rev { Some((&regs[0], 2)) } else { None };
    let mut out = None;
    let v = judge(|| {
        out = Some(sign(i, &bs, &bp, &n1, &n2, &kv, r)?);
        Ok(true)
    });
    c.state(&(&sub, rev, extra));
    c.step();
    let mut claim: Vals = vec![("master_secret", Kind::Hidden, MS1.into())];
    for (k, a) in attrs.iter().enumerate() {
        let x = if sub.contains(&k) { bn("18").add(&bn(extra)).unwrap().to_dec().unwrap() } else { "18".into() };
        claim.push((*a, Kind::Known, x));
    }
    if let Some((sig, scp, rv)) = out {
        let pr = rv.as_ref().map(|(a, b)| (&regs[0], a, b));
        let cred = match guard(|| process(i, &sig, &scp, &bf, &claim, &n2, pr)) {
            Ok(Ok(s)) => s,
            Ok(Err(_)) if !sub.is_empty() => {
                c.outcome("unusable");
                return Ok(());
            }
            Ok(Err(e)) => return violation("overlap:honest-refused", format!("{}", e)),
            Err(m) => return violation("overlap:panic", m),
        };
        if sub.is_empty() {
            c.outcome("honest");
            return Ok(());
        }
        let cr = Cred { sig: cred, vals: claim.clone() };
        let q = req(&["age", "name", "sex"], &[]);
        let nonce = new_nonce().unwrap();
        let pv = judge(|| verify(&prove(&[Part { iss: i, cred: &cr, req: q.clone(), rev: None }], &[], &nonce)?, &[Want::of(i, &q)], &[], &nonce));
        return expect(c, pv, false, "overlap", || {
            format!("the issuer signed age=name=sex=18; the holder, having blinded {:?} as well, proves {:?}", sub, claim)
        });
    }
    expect(c, v, sub.is_empty(), "overlap:sign", || format!("blinding {:?} as well", sub))
}

pub fn build(tier: Tier) -> Check {
    let w = world();
    let regs = Arc::new(vec![new_registry(&w.i1.pk, 3, true), new_registry(&w.i1.pk, 3, false)]);
    let p = Arc::new(Pair2 {
        a: session(&w.i1, std_vals(MS1, "28", NAME), Some((&regs[0], 2))),
        b: session(&w.i1, std_vals(MS2, "44", "17"), Some((&regs[0], 3))),
    });
    let two = |ms: &str, x: &str| -> Vals { vec![("master_secret", Kind::Hidden, ms.into()), ("age", Kind::Hidden, x.into()), ("name", Kind::Commit, format!("{}7", x)), ("sex", Kind::Commit, format!("{}8", x))] };
    let pc = Arc::new(Pair2 { a: session(&w.i1, two(MS1, "3"), None), b: session(&w.i1, two(MS2, "4"), None) });
    let large = crate::large::big(&w.i1.pk, (1u32 << 31) - 1, false);
    let named = new_issuer(677, &NAMES, &["master_secret"], true);
    let named_reg = new_registry(&named.pk, 3, true);
    let contexts: Memo<(usize, u32), (String, Vec<String>)> = Memo::new();
    let (w8, w9) = (w.clone(), w.clone());
    let _ = tier;
    let (w1, w2, w3, w4, w5, w6, w7) = (w.clone(), w.clone(), w.clone(), w.clone(), w.clone(), w.clone(), w);
    let (r1, r2, r3, r4, r5) = (regs.clone(), regs.clone(), regs.clone(), regs.clone(), regs);
    let (p1, p2, p3) = (p.clone(), p.clone(), p);
    Check {
        rule: "An execution is one issuance exchange: the choices fix how each attribute is held, its value, the revocation mode, and at most one alteration of one message (every leaf of every message x every mutation, every removal, every mixture of two sessions). A state is one combination of choices.".into(),
        assumptions: vec![
            "2048-bit keys from two fixed seeds; the algebra is the same for every key".into(),
            "The context base of the public key and the revocation index inside the signature are covered by no proof of the protocol".into(),
        ],
        scenarios: vec![
            Scenario::new("honest", "3 attributes known or hidden, 3 revocation modes, 5 values; presented with nothing and with everything revealed", move |c| honest(&w1, &r1, c)),
            Scenario::new("committed", "every set of committed attributes x 3 values x the others known or hidden; 3 claims each", move |c| committed(&w2, c)),
            Scenario::new("tamper-key", "every leaf of the key and its correctness proof x mutations, every removal", move |c| tamper_key(&w3, c)),
            Scenario::new("tamper-request", "every leaf of the blinded secrets, their proof and the nonce x mutations, every removal; with revocation, and with several hidden and committed attributes", move |c| tamper_request(&w4, &r2, &p1, &pc, c)),
            Scenario::new("tamper-answer", "every leaf of the signature, its proof and the nonce x mutations, every removal", move |c| tamper_answer(&w5, &r3, &p2, c)),
            Scenario::new("sessions", "two sessions, every mixture of their messages at the issuer (2^3) and at the holder (2^6)", move |c| sessions(&w6, &r4, &p3, c)),
            Scenario::new("context", "8 holders x 24 indexes around the powers of two, and none: all contexts different", move |c| context(&w8, &large, &contexts, c)),
            Scenario::new("issuer", "2 issuers that sign with 18 kinds of exponents: the ends and the middle of the range, composite, shorter, longer, negative", move |c| issuer(&w9, c)),
            Scenario::new("names", "9 names of attributes (empty, like another, Unicode, control characters, 64 to 270 bytes): each shown, next to a predicate, with one hidden or none, with and without revocation; every exchange of two", move |c| names(&named, &named_reg, c)),
            Scenario::new("overlap", "holder blinds every subset of the issuer-known attributes, with and without revocation", move |c| overlap(&w7, &r5, c)),
        ],
    }
}
