//! C06: dishonest provers.  A reference prover with switches; only its honest setting is accepted.
use crate::c02::{fix, Fix};
use crate::forge::*;
use crate::world::*;
use mc::*;
use std::collections::BTreeMap;
use ursa::cl::*;

fn reqs() -> Vec<Req> {
    vec![
        req(&[], &[]),
        req(&["name"], &[]),
        req(&["age", "name", "sex"], &[]),
        req(&[], &[("age", "GE", 20)]),
        req(&["name"], &[("age", "GT", 20)]),
        req(&["name"], &[("age", "LE", 40)]),
        req(&["sex"], &[("age", "LT", 40)]),
        req(&["name"], &[("age", "GE", 28), ("age", "LE", 28)]),
    ]
}
fn decode(v: &Value) -> Result<Proof, String> {
    match guard(|| unj::<Proof>(v)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// The reference prover, honest: validates the reference against the library's verifier.
fn reference(f: &Fix, c: &mut Ctx) -> R {
    let q = c.pick("request", &reqs());
    let two = c.flag("second credential");
    let common = c.flag("linked");
    let nonce = new_nonce().unwrap();
    let q2 = req(&["status"], &[("age", "LT", 50)]);
    let mut subs = vec![Sub { iss: &f.w.i1, sig: Some(&f.a.sig), vals: &f.a.vals, req: q.clone(), lie: Lie::None, at: None, claim: BTreeMap::new() }];
    let mut wants = vec![Want::of(&f.w.i1, &q)];
    if two {
        subs.push(Sub { iss: &f.w.i2, sig: Some(&f.b.sig), vals: &f.b.vals, req: q2.clone(), lie: Lie::None, at: None, claim: BTreeMap::new() });
        wants.push(Want::of(&f.w.i2, &q2));
    }
    let cm: &[&str] = if common { &["master_secret"] } else { &[] };
    c.state(&(&q, two, common));
    let doc = forge(&subs, cm, &nonce).expect("honest reference");
    let p = match decode(&doc) {
        Ok(p) => p,
        Err(e) => return violation("reference:decode", e),
    };
    let v = judge(|| verify(&p, &wants, cm, &nonce));
    expect(c, v, true, "reference", || format!("reference prover for {:?}, second credential {}, linked {}", q, two, common))
}

/// The response for e must be a number of the length an honest prover's has: without that there are
/// proofs for any e.
fn range(f: &Fix, c: &mut Ctx) -> R {
    let bits = c.pick("bits of the response for e", &[0usize, 400, 448, 456, 458, 459, 464, 480, 512, 520, 592, 597, 720, 1024, 2048, 2724, 4000]);
    let q = c.pick("request", &reqs());
    let pos = c.choose("position", 3);
    let lie = if bits == 0 { Lie::NegativeE } else { Lie::LongE(bits) };
    let want = bits > 0 && bits < 458;
    c.state(&(bits, &q, pos));
    if !c.thorough() && pos > 0 && q.preds.len() + q.revealed.len() != 1 {
        c.outcome("left to the thorough run");
        return Ok(());
    }
    let nonce = new_nonce().unwrap();
    let odd = Sub { iss: &f.w.i1, sig: Some(&f.a.sig), vals: &f.a.vals, req: q.clone(), lie, at: None, claim: BTreeMap::new() };
    let q2 = req(&["status"], &[("age", "LT", 50)]);
    let good = Sub { iss: &f.w.i2, sig: Some(&f.b.sig), vals: &f.b.vals, req: q2.clone(), lie: Lie::None, at: None, claim: BTreeMap::new() };
    let (w1, w2) = (Want::of(&f.w.i1, &q), Want::of(&f.w.i2, &q2));
    let (subs, wants) = match pos {
        0 => (vec![odd], vec![w1]),
        1 => (vec![odd, good], vec![w1, w2]),
        _ => (vec![good, odd], vec![w2, w1]),
    };
    let doc = forge(&subs, &[], &nonce).expect("a proof");
    let p = match decode(&doc) {
        Ok(p) => p,
        Err(e) => return c.ensure(!want, "range:decode", || e),
    };
    let v = judge(|| verify(&p, &wants, &[], &nonce));
    expect(c, v, want, "range", || format!("a response for e of {} bits (0: negative) for {:?}, position {}", bits, q, pos))
}

const LIES: [Lie; 13] = [
    Lie::HugeE,
    Lie::UnlinkedPredicate,
    Lie::OtherValueLinked,
    Lie::LateCommitment,
    Lie::OtherList,
    Lie::RevealOther,
    Lie::RevealMore,
    Lie::RevealSecret,
    Lie::NegatedDelta,
    Lie::OtherSquares,
    Lie::OtherIssuer,
    Lie::OtherDirection,
    Lie::RevealedPredicate,
];

fn lies(f: &Fix, c: &mut Ctx) -> R {
    let lie = if c.flag("degenerate") { c.pick("element", &[Lie::ZeroA, Lie::ZeroT]) } else { c.pick("lie", &LIES) };
    let mut rs = reqs();
    // requests the credential (age 28) does not satisfy
    rs.push(req(&[], &[("age", "GE", 40)]));
    rs.push(req(&["name"], &[("age", "GT", 28)]));
    rs.push(req(&["name"], &[("age", "LE", 20)]));
    rs.push(req(&["sex"], &[("age", "LT", 28)]));
    // about an attribute that is revealed
    rs.push(req(&["age"], &[("age", "GE", 40)]));
    rs.push(req(&["age", "name"], &[("age", "LT", 28)]));
    // one of several does not hold
    rs.push(req(&[], &[("age", "GE", 20), ("age", "GE", 40)]));
    rs.push(req(&["name"], &[("age", "GE", 40), ("age", "LE", 50)]));
    rs.push(req(&["name"], &[("age", "GE", 20), ("age", "LE", 20), ("age", "LT", 50)]));
    rs.push(req(&[], &[("age", "GT", 20), ("age", "LE", 50), ("age", "LT", 28)]));
    let q = c.pick("request", &rs);
    let pos = c.choose("position", 3);
    let nonce = new_nonce().unwrap();
    let holds = |q: &Req| q.preds.iter().all(|(_, t, v)| match *t { "GE" => 28 >= *v, "GT" => 28 > *v, "LE" => 28 <= *v, _ => 28 < *v });
    let has_pred = !q.preds.is_empty();
    // the predicate the lie is about: the one that does not hold, or each in turn
    let mut sorted = q.preds.clone();
    sorted.sort();
    let fails: Vec<usize> = (0..sorted.len()).filter(|k| !holds(&Req { revealed: Default::default(), preds: vec![sorted[*k].clone()] })).collect();
    let about = c.choose("about predicate", 3);
    let several = q.preds.len() > 1;
    let at = if several { Some(about) } else { None };
    let target = if fails.is_empty() { about < q.preds.len() } else { fails == [about] };
    if about >= q.preds.len().max(1) {
        c.outcome("not applicable");
        return Ok(());
    }
    let shown = q.preds.iter().any(|p| q.revealed.contains(&p.0));
    // where does the lie mean something?
    let applies = match lie {
        Lie::RevealedPredicate => shown && !several,
        _ if shown => false,
        Lie::HugeE => q.preds.len() <= 1,
        Lie::OtherValueLinked => q.preds.len() == 1 && !holds(&q),
        Lie::UnlinkedPredicate | Lie::NegatedDelta | Lie::LateCommitment | Lie::OtherDirection => target && !holds(&q),
        Lie::OtherSquares | Lie::ZeroT => target && has_pred && holds(&q),
        Lie::RevealOther => !q.revealed.is_empty() && !has_pred,
        Lie::RevealMore | Lie::RevealSecret => about == 0 && (!has_pred || holds(&q)),
        Lie::OtherList | Lie::ZeroA | Lie::OtherIssuer => about == 0 && (!has_pred || holds(&q)),
        _ => false,
    };
    if !applies {
        c.outcome("not applicable");
        return Ok(());
    }
    let mut claim: BTreeMap<&'static str, String> = BTreeMap::new();
    if lie == Lie::RevealOther || lie == Lie::HugeE {
        for a in &q.revealed {
            claim.insert(a, "99".into());
        }
    }
    let sig = if lie == Lie::OtherIssuer { None } else { Some(&f.a.sig) };
    let other;
    let sig = match sig {
        Some(s) => Some(s),
        None => {
            other = issue(&f.i3, &f.a.vals, PROVER_ID).unwrap();
            Some(&other.sig)
        }
    };
    let bad = Sub { iss: &f.w.i1, sig, vals: &f.a.vals, req: q.clone(), lie, at, claim };
    let q2 = req(&["status"], &[("age", "LT", 50)]);
    let good = Sub { iss: &f.w.i2, sig: Some(&f.b.sig), vals: &f.b.vals, req: q2.clone(), lie: Lie::None, at: None, claim: BTreeMap::new() };
    let (w1, w2) = (Want::of(&f.w.i1, &q), Want::of(&f.w.i2, &q2));
    let (subs, wants) = match pos {
        0 => (vec![bad], vec![w1]),
        1 => (vec![bad, good], vec![w1, w2]),
        _ => (vec![good, bad], vec![w2, w1]),
    };
    c.state(&(lie, &q, pos, about));
    let doc = match forge(&subs, &[], &nonce) {
        Some(d) => d,
        None => {
            c.outcome("no such forgery");
            return Ok(());
        }
    };
    let p = match decode(&doc) {
        Ok(p) => p,
        Err(_) => {
            c.step();
            c.outcome("refused (not decodable)");
            return Ok(());
        }
    };
    let v = judge(|| verify(&p, &wants, &[], &nonce));
    expect(c, v, false, &format!("forged:{:?}", lie), || format!("{:?} for {:?}, position {}", lie, q, pos))
}

pub fn build(_t: Tier) -> Check {
    let f = fix();
    let f2 = f.clone();
    let f3 = f.clone();
    Check {
        rule: "An execution is one presentation built by an independent reference prover under one strategy: honest (must be accepted, which validates the reference) or one of the dishonest strategies (must be refused), for every request and position of the dishonest sub-proof.".into(),
        assumptions: vec!["The strategies are those enumerated; computational soundness against every prover is outside enumeration".into()],
        scenarios: vec![
            Scenario::new("reference", "8 requests x one or two credentials x linked or not", move |c| reference(&f, c)),
            Scenario::new("range", "17 lengths of the response for e x 8 requests x 3 positions", move |c| range(&f3, c)),
            Scenario::new("lies", "15 dishonest strategies x 18 requests x the predicate lied about x 3 positions", move |c| lies(&f2, c)),
        ],
    }
}
