//! C04: a proof of non-revocation is accepted exactly while the credential is valid.
use crate::c05::{apply, Op};
use crate::world::*;
use mc::*;
use std::collections::BTreeSet;
use std::sync::Arc;
use ursa::cl::*;

type Set = BTreeSet<u32>;
const L: u32 = 3;
pub struct Fix {
    i: Iss,
    /// issuance on demand, issuance by default
    regs: [Reg; 2],
    /// The credential of index 2, as issued first of all, and the registry and delta then.
    creds: Vec<(Cred, RevocationRegistry, RevocationRegistryDelta, Set)>,
}
fn fix() -> Fix {
    let i = new_issuer(677, &["age", "name", "sex"], &["master_secret"], true);
    let regs = [new_registry(&i.pk, L, false), new_registry(&i.pk, L, true)];
    let creds = (0..2)
        .map(|d| {
            let r: &Reg = &regs[d];
            let mut reg = r.reg0.clone();
            let mut full = empty_delta(&reg);
            let (cred, _, delta) = issue_rev(&i, &std_vals(MS1, "28", NAME), PROVER_ID, r, &mut reg, 2, &full).unwrap();
            let v: Set = if d == 1 { (1..=L).collect() } else { vec![2].into_iter().collect() };
            if let Some(x) = delta {
                full.merge(&x).unwrap();
            }
            (cred, reg, full, v)
        })
        .collect();
    Fix { i, regs, creds }
}
fn without2(v: &Set) -> Set {
    v.iter().cloned().filter(|x| *x != 2).collect()
}

/// Histories of the registry; the holder of credential 2 proves at the end in every way.
fn history(f: &Fix, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &f.regs[d];
    let (cred, reg, full, v) = &f.creds[d];
    let (mut reg, mut full, mut v) = (reg.clone(), full.clone(), v.clone());
    let ops = [
        Op::Single(1), Op::Single(2), Op::Single(3),
        Op::Update(vec![1, 2].into_iter().collect()), Op::Update(vec![1, 2, 3].into_iter().collect()),
    ];
    let mk = |full: &RevocationRegistryDelta| Witness::new(2, L, d == 1, full, &r.tails).unwrap();
    let mut wits = vec![mk(&full)];
    let (mut regs, mut vs, mut deltas) = (vec![reg.clone()], vec![v.clone()], vec![]);
    let n = c.choose("length", 1 + c.q(2, 4));
    for k in 0..n {
        let o = c.pick(&format!("operation {}", k), &ops);
        let delta = apply(&o, &mut v, &mut reg, L, &r.tails).unwrap();
        c.state(&(d, &v));
        full.merge(&delta).unwrap();
        wits.push(mk(&full));
        regs.push(reg.clone());
        vs.push(v.clone());
        deltas.push(delta);
    }
    let q = req(&["name"], &[("age", "GE", 18)]);
    let nonce = new_nonce().unwrap();
    let go = |w: &Witness, held: &RevocationRegistry, checked: &RevocationRegistry| {
        judge(|| {
            let p = prove(&[Part { iss: &f.i, cred, req: q.clone(), rev: Some((held, w)) }], &[], &nonce)?;
            verify(&p, &[Want::of(&f.i, &q).rev(&r.pubk, checked)], &[], &nonce)
        })
    };
    let valid = v.contains(&2);
    // the holder keeps up: witness made anew, updated delta by delta, updated with everything merged
    let which = c.choose("witness", 3 + n);
    let (what, w): (String, Witness) = match which {
        0 => ("made anew".into(), wits[n].clone()),
        1 => {
            let mut w = wits[0].clone();
            for x in &deltas {
                w.update(2, L, x, &r.tails).unwrap();
            }
            ("updated delta by delta".into(), w)
        }
        2 => {
            let mut w = wits[0].clone();
            if n > 0 {
                let mut m = deltas[0].clone();
                for x in &deltas[1..] {
                    m.merge(x).unwrap();
                }
                w.update(2, L, &m, &r.tails).unwrap();
            }
            ("updated with the merged deltas".into(), w)
        }
        k => (format!("as of {} operations before", n - (k - 3)), wits[k - 3].clone()),
    };
    let fresh = which < 3 || without2(&vs[which - 3]) == without2(&v);
    c.note(format!("valid sets {:?}, witness {}", vs, what));
    expect(c, go(&w, &regs[n], &regs[n]), valid && fresh, "history", || {
        format!("by default {}, valid sets {:?}, witness {}: current registry", d == 1, vs, what)
    })?;
    if which >= 3 {
        // the holder uses the old registry state too; the verifier has the current one
        let k = which - 3;
        let same = vs[k] == v;
        expect(c, go(&w, &regs[k], &regs[n]), same && valid, "stale", || {
            format!("by default {}, valid sets {:?}: holder at state {}, verifier at the last", d == 1, vs, k)
        })?;
        // both at the old state: whoever accepts an old registry learns about that time
        if n > 0 && k + 1 == n {
            expect(c, go(&w, &regs[k], &regs[k]), vs[k].contains(&2), "past", || format!("valid sets {:?}, both at state {}", vs, k))?;
        }
    }
    Ok(())
}

/// Credentials are issued, revoked and issued for other holders in turn; each proves for itself alone.
fn holders(f: &Fix, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &f.regs[d];
    let mut reg = r.reg0.clone();
    let mut full = empty_delta(&reg);
    let mut v: Set = if d == 1 { (1..=L).collect() } else { Set::new() };
    let order = c.pick("order", &perms(3)[..c.q(2, 6)].to_vec());
    let revoke = c.choose("revoked", 4);
    let mut creds = vec![];
    for k in order.iter().take(2) {
        let i = *k as u32 + 1;
        let ms = if i == 1 { MS1 } else { MS2 };
        let (cred, _, delta) = match issue_rev(&f.i, &std_vals(ms, "28", NAME), &format!("prover {}", i), r, &mut reg, i, &full) {
            Ok(x) => x,
            Err(e) => return violation("holders:issue", format!("issuing {} after {:?}: {}", i, v, e)),
        };
        if let Some(x) = delta {
            full.merge(&x).unwrap();
        }
        v.insert(i);
        creds.push((i, cred));
    }
    if revoke > 0 && v.contains(&(revoke as u32)) {
        let x = apply(&Op::Single(revoke as u32), &mut v, &mut reg, L, &r.tails).unwrap();
        full.merge(&x).unwrap();
    }
    c.state(&(d, &order, revoke));
    let who = c.choose("credential", 2);
    let whose = c.choose("witness of", 3) as u32 + 1;
    let (i, cred) = &creds[who];
    let w = Witness::new(whose, L, d == 1, &full, &r.tails).unwrap();
    let q = req(&["name"], &[]);
    let nonce = new_nonce().unwrap();
    let verdict = judge(|| {
        let p = prove(&[Part { iss: &f.i, cred, req: q.clone(), rev: Some((&reg, &w)) }], &[], &nonce)?;
        verify(&p, &[Want::of(&f.i, &q).rev(&r.pubk, &reg)], &[], &nonce)
    });
    // with the registry empty but for two credentials another's witness may coincide with one's own: compare the values
    let own = Witness::new(*i, L, d == 1, &full, &r.tails).unwrap();
    let same = jval(&own) == jval(&w);
    expect(c, verdict, v.contains(i) && (whose == *i || same), "holders", || {
        format!("by default {}, issued {:?}, valid {:?}: credential {} with the witness of {}", d == 1, order, v, i, whose)
    })
}

/// A revoked credential does not become valid by borrowing from others.
fn borrow(f: &Fix, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &f.regs[d];
    let mut reg = r.reg0.clone();
    let mut full = empty_delta(&reg);
    let mut v: Set = if d == 1 { (1..=L).collect() } else { Set::new() };
    let same_holder = c.flag("same holder");
    let mut creds = vec![];
    for i in &[1u32, 2] {
        let (ms, id) = if *i == 1 || same_holder { (MS1, "prover 1") } else { (MS2, "prover 2") };
        let (cred, _, delta) = issue_rev(&f.i, &std_vals(ms, &format!("{}", 20 + i), NAME), id, r, &mut reg, *i, &full).unwrap();
        if let Some(x) = delta {
            full.merge(&x).unwrap();
        }
        v.insert(*i);
        creds.push(cred);
    }
    let x = apply(&Op::Single(2), &mut v, &mut reg, L, &r.tails).unwrap();
    full.merge(&x).unwrap();
    // credential 2 is revoked; what is put in place of its parts
    let (c1, c2) = (jval(&creds[0].sig), jval(&creds[1].sig));
    let own: Vec<String> = c2["r_credential"].as_object().unwrap().keys().map(|k| k.to_string()).collect();
    let k = c.choose("borrowed", own.len() + 3);
    let (mut sig, mut wit, mut held) = (c2.clone(), 2, reg.clone());
    let what = match k {
        0 => "nothing".to_string(),
        1 => {
            sig["r_credential"] = c1["r_credential"].clone();
            wit = 1;
            "the whole revocation part of credential 1".into()
        }
        2 => {
            wit = 1;
            held = f.creds[d].1.clone();
            "the witness and an old registry".into()
        }
        k => {
            sig["r_credential"][&own[k - 3]] = c1["r_credential"][&own[k - 3]].clone();
            wit = 1;
            own[k - 3].clone()
        }
    };
    c.note(what.clone());
    c.state(&(d, same_holder, k));
    let w = Witness::new(wit, L, d == 1, &full, &r.tails).unwrap();
    let cred = Cred { sig: unj(&sig).unwrap(), vals: creds[1].vals.clone() };
    let q = req(&["age"], &[]);
    let nonce = new_nonce().unwrap();
    let verdict = judge(|| {
        let p = prove(&[Part { iss: &f.i, cred: &cred, req: q.clone(), rev: Some((&held, &w)) }], &[], &nonce)?;
        verify(&p, &[Want::of(&f.i, &q).rev(&r.pubk, &reg)], &[], &nonce)
    });
    let key = if k == 1 { "m2-unlinked".to_string() } else { format!("borrow:{}", what.replace(' ', "-")) };
    c.step();
    c.outcome(verdict.class());
    match verdict {
        Verdict::Accepted => c.soft(key, format!("a revoked credential is accepted with {} of a valid one (same holder: {})", what, same_holder)),
        Verdict::Panicked(p) => return violation("borrow:panic", format!("{}: {}", what, p)),
        _ => (),
    }
    Ok(())
}

/// A prover that does not use the library's: honest, it is accepted; with one number, commitment or
/// equation of the part about revocation wrong, it is refused.
fn reference(f: &Fix, c: &mut Ctx) -> R {
    use crate::forge::*;
    let d = c.choose("issued by default", 2);
    let place = c.choose("place", 3);
    let q = c.pick("request", &[req(&[], &[]), req(&["age"], &[]), req(&["name"], &[("age", "GE", 20)])]);
    let lies: Vec<NrLie> = std::iter::once(NrLie::None).chain((0..14).map(NrLie::Secret)).chain((0..7).map(NrLie::Element)).chain((0..7).map(NrLie::Neutral)).chain((0..8).map(NrLie::Tau)).collect();
    let lie = c.pick("lie", &lies);
    let revoked = lie == NrLie::None && c.flag("revoked");
    c.state(&(d, place, &q, lie, revoked));
    if !c.thorough() && lie != NrLie::None && (q.revealed.len() != 1 || place > 0 && d == 1) {
        c.outcome("left to the thorough run");
        return Ok(());
    }
    let r: &Reg = &f.regs[d];
    let (cred, reg, full, v) = &f.creds[d];
    let (mut reg, mut full, mut v) = (reg.clone(), full.clone(), v.clone());
    let old = reg.clone();
    let wit = Witness::new(2, L, d == 1, &full, &r.tails).unwrap();
    if revoked {
        let x = apply(&Op::Single(2), &mut v, &mut reg, L, &r.tails).unwrap();
        full.merge(&x).unwrap();
    }
    let nonce = new_nonce().unwrap();
    let sub = |q: &Req| Sub { iss: &f.i, sig: Some(&cred.sig), vals: &cred.vals, req: q.clone(), lie: Lie::None, at: None, claim: Default::default() };
    let nr = |lie: NrLie, reg| Some(Nr { pk: &f.i.pk, sig: &cred.sig, reg, wit: &wit, lie });
    // the sub-proof by itself; after one without a part about revocation; before one with it
    let q2 = req(&["sex"], &[]);
    let plain = Want::of(&f.i, &q2);
    let want = Want::of(&f.i, &q).rev(&r.pubk, &reg);
    // a revoked credential: proven for the registry as it is, and as it was
    for use_old in if revoked { vec![false, true] } else { vec![false] } {
        let held = if use_old { &old } else { &reg };
        let (subs, nrs, wants) = match place {
            0 => (vec![sub(&q)], vec![nr(lie, held)], vec![&want]),
            1 => (vec![sub(&q2), sub(&q)], vec![None, nr(lie, held)], vec![&plain, &want]),
            _ => (vec![sub(&q), sub(&q2)], vec![nr(lie, held), None], vec![&want, &plain]),
        };
        let doc = forge_with(&subs, &nrs, &[], &nonce).expect("a proof");
        let honest = lie == NrLie::None && !revoked;
        let p: Proof = match guard(|| unj(&doc)) {
            Ok(Ok(p)) => p,
            e => return c.ensure(!honest, "reference:decode", || format!("{:?}", e.map(|x| x.map(|_| ())))),
        };
        let wants: Vec<Want> = wants.iter().map(|w| Want { pk: w.pk, schema: w.schema, non: w.non, req: w.req.clone(), rev: w.rev }).collect();
        let verdict = judge(|| verify(&p, &wants, &[], &nonce));
        expect(c, verdict, honest, "reference", || format!("{:?}, revoked {}, for {:?} at place {}, issued by default {}", lie, revoked, q, place, d))?;
    }
    Ok(())
}

/// Several credentials with revocation in one presentation, and one without: each must be valid, each proof be there.
fn several(f: &Fix, c: &mut Ctx) -> R {
    const HOW: [&str; 6] = ["proven", "witness of before", "not proven", "part taken out", "part of the other", "revoked"];
    let third = c.pick("credential without revocation", &[0usize, 2, 1, 3][..c.q(2, 4)].to_vec());
    let how: Vec<usize> = (0..2).map(|d| c.choose(["first", "second"][d], HOW.len())).collect();
    let wants: Vec<bool> = (0..2).map(|d| !c.flag(["first not asked", "second not asked"][d])).collect();
    let order = c.flag("second first");
    c.state(&(third, &how, &wants, order));
    if !c.thorough() && how[0] > 0 && how[1] > 0 && (order || third > 0) {
        c.outcome("left out");
        return Ok(());
    }
    // what is not asked for is not shown
    if (0..2).any(|d| !wants[d] && how[d] != 2) {
        c.outcome("not asked for");
        return Ok(());
    }
    let (q, nonce) = (req(&["name"], &[("age", "GE", 18)]), new_nonce().unwrap());
    let mut regs = vec![];
    for d in 0..2 {
        let (_, reg, full, v) = &f.creds[d];
        let (mut reg, mut full, mut v) = (reg.clone(), full.clone(), v.clone());
        let before = Witness::new(2, L, d == 1, &full, &f.regs[d].tails).unwrap();
        // another credential comes and goes, or this one is revoked
        let ops = if how[d] == 5 { vec![Op::Single(2)] } else { vec![Op::Single(3)] };
        for o in &ops {
            let x = apply(o, &mut v, &mut reg, L, &f.regs[d].tails).unwrap();
            full.merge(&x).unwrap();
        }
        let now = Witness::new(2, L, d == 1, &full, &f.regs[d].tails).unwrap();
        regs.push((reg, if how[d] == 1 { before } else { now }));
    }
    let ids: Vec<usize> = {
        let mut o = if order { vec![1, 0] } else { vec![0, 1] };
        if third > 0 { o.insert(third - 1, 2); }
        o
    };
    let plain = plain_cred(f);
    let verdict = judge(|| {
        let parts: Vec<Part> = ids.iter().map(|d| if *d == 2 { Part { iss: &plain.0, cred: &plain.1, req: q.clone(), rev: None } } else {
            Part { iss: &f.i, cred: &f.creds[*d].0, req: q.clone(), rev: if how[*d] == 2 { None } else { Some((&regs[*d].0, &regs[*d].1)) } }
        }).collect();
        let p = prove(&parts, &["master_secret"], &nonce)?;
        let mut j = jval(&p);
        let old = j.clone();
        for (k, d) in ids.iter().enumerate() {
            if *d == 2 { continue }
            match how[*d] {
                3 => j["proofs"][k]["non_revoc_proof"] = json!(null),
                4 => { let o = ids.iter().position(|x| *x == 1 - *d).unwrap(); j["proofs"][k]["non_revoc_proof"] = old["proofs"][o]["non_revoc_proof"].clone(); }
                _ => {}
            }
        }
        let p: Proof = unj(&j).expect("a proof");
        let ws: Vec<Want> = ids.iter().map(|d| if *d == 2 { Want::of(&plain.0, &q) } else {
            let w = Want::of(&f.i, &q);
            if wants[*d] { w.rev(&f.regs[*d].pubk, &regs[*d].0) } else { w }
        }).collect();
        verify(&p, &ws, &["master_secret"], &nonce)
    });
    expect(c, verdict, (0..2).all(|d| !wants[d] || how[d] == 0), "several", || {
        format!("order {:?} (2: without revocation), first {}, second {}, asked {:?}", ids, HOW[how[0]], HOW[how[1]], wants)
    })
}
fn plain_cred(f: &Fix) -> Arc<(Iss, Cred)> {
    static M: Memo<u8, (Iss, Cred)> = Memo::new();
    let _ = f;
    M.of(&0, || {
        let i = new_issuer(678, &["age", "name", "sex"], &["master_secret"], false);
        let c = issue(&i, &std_vals(MS1, "28", NAME), PROVER_ID).unwrap();
        (i, c)
    })
}

pub fn build(_t: Tier) -> Check {
    let f = Arc::new(fix());
    let bigs = crate::large::for_credentials(&f.i);
    let _ = plain_cred(&f);
    let (f1, f2, f3, f4, f5, f6) = (f.clone(), f.clone(), f.clone(), f.clone(), f.clone(), f);
    Check {
        rule: "An execution is one history of a revocation registry of size 3 with real credentials in it, a choice of what the holder's witness was made from, and one presentation; the verdict must be that of set membership. A state is the registry's kind and its set of valid indexes (with holders: order of issue, revoked index).".into(),
        assumptions: vec!["2048-bit keys from fixed seeds; operations are well-formed".into()],
        scenarios: vec![
            Scenario::new("history", "all histories of up to 2 (4) operations out of 5 x both kinds x every witness", move |c| history(&f1, c)),
            Scenario::new("holders", "2 (6) orders of issue x revoked index x credential x whose witness, both kinds", move |c| holders(&f2, c)),
            Scenario::new("borrow", "a revoked credential with each part of a valid one, same or other holder", move |c| borrow(&f3, c)),
            Scenario::new("reference", "an independent prover, honest and with each of 14 numbers, 7 commitments and 8 equations wrong, revoked or not x 3 requests x 3 places, both kinds", move |c| reference(&f6, c)),
            Scenario::new("several", "two credentials with revocation, both orders, each proven, outdated, not proven, taken out, the other's or revoked, asked for or not; with a third without revocation at every place or not", move |c| several(&f5, c)),
            Scenario::new("large", "registries of 300 and 2^31-1, indexes around 2^7, 2^8, 2^15, 2^16, 2^24, 2^30: valid, revoked, valid again", move |c| crate::large::credentials(&f4.i, &bigs, c)),
        ],
    }
}
