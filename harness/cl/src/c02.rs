//! C02: presentations. Complete, and refused under every single deviation.
use crate::c01::alterations;
use crate::world::*;
use mc::*;
use std::sync::Arc;
use ursa::cl::*;

pub struct Fix {
    pub w: World,
    /// A third issuer with the first one's schema.
    pub i3: Iss,
    pub regs: Vec<Reg>,
    pub a: Cred,
    pub reg: RevocationRegistry,
    pub wit: Witness,
    /// the second issuer's credentials: same holder, other holder, same holder with another age
    pub b: Cred,
    pub b_other: Cred,
    pub b_age: Cred,
}
pub fn fix() -> Arc<Fix> {
    let w = World {
        i1: new_issuer(677, &["age", "name", "sex"], &["master_secret"], true),
        i2: new_issuer(783, &["age", "status"], &["master_secret"], false),
    };
    let i3 = new_issuer(466, &["age", "name", "sex"], &["master_secret"], true);
    let regs = vec![new_registry(&w.i1.pk, 3, true), new_registry(&w.i1.pk, 3, true), new_registry(&i3.pk, 3, true)];
    let mut reg = regs[0].reg0.clone();
    let d = empty_delta(&reg);
    let (a, wit, _) = issue_rev(&w.i1, &std_vals(MS1, "28", NAME), PROVER_ID, &regs[0], &mut reg, 2, &d).unwrap();
    let b = issue(&w.i2, &vals2(MS1, "28", "51"), PROVER_ID).unwrap();
    let b_other = issue(&w.i2, &vals2(MS2, "28", "51"), PROVER_ID).unwrap();
    let b_age = issue(&w.i2, &vals2(MS1, "29", "51"), PROVER_ID).unwrap();
    Arc::new(Fix { w, i3, regs, a, reg, wit, b, b_other, b_age })
}

const A1: [&str; 3] = ["age", "name", "sex"];

fn preds_for(c: &mut Ctx, revealed: &[&'static str]) -> Vec<(&'static str, &'static str, i32)> {
    let sets: Vec<Vec<(&'static str, &'static str, i32)>> = vec![
        vec![],
        vec![("age", "GE", 18)],
        vec![("age", "LE", 28)],
        vec![("age", "GT", 27), ("age", "LT", 100)],
        vec![("age", "GE", 28), ("age", "GE", 0), ("sex", "LT", 2)],
    ];
    let ok: Vec<_> = sets.into_iter().filter(|s| s.iter().all(|p| !revealed.contains(&p.0))).collect();
    c.pick("predicates", &ok)
}

/// Every honest presentation is accepted.
fn complete(f: &Fix, creds: &[Cred], c: &mut Ctx) -> R {
    let i = &f.w.i1;
    let revealed: Vec<&'static str> = c.subset("revealed", 3).into_iter().map(|k| A1[k]).collect();
    let preds = preds_for(c, &revealed);
    let which = c.choose("credential", creds.len());
    let common = c.flag("common");
    let json = c.flag("json");
    let q = req(&revealed, &preds);
    let cm: &[&str] = if common { &["master_secret"] } else { &[] };
    let nonce = new_nonce().unwrap();
    c.state(&(&q, which, common, json));
    let v = judge(|| {
        let mut p = prove(&[Part { iss: i, cred: &creds[which], req: q.clone(), rev: None }], cm, &nonce)?;
        if json {
            let text = serde_json::to_string(&p).unwrap();
            p = serde_json::from_str(&text).unwrap();
            let pk: CredentialPublicKey = clone(&i.pk);
            let schema: CredentialSchema = clone(&i.schema);
            let non: NonCredentialSchema = clone(&i.non);
            let n2: Nonce = clone(&nonce);
            return verify(&p, &[Want { pk: &pk, schema: &schema, non: &non, req: q.clone(), rev: None }], cm, &n2);
        }
        verify(&p, &[Want::of(i, &q)], cm, &nonce)
    });
    expect(c, v, true, "complete", || format!("honest presentation of {:?}, common {:?}", q, cm))
}

/// Attributes revealed, linked and in predicates at once: what cannot be proved is an error.
fn shapes(f: &Fix, c: &mut Ctx) -> R {
    let i = &f.w.i1;
    let revealed = c.subset("revealed", 3);
    let names = ["age", "name", "sex"];
    let r: Vec<&'static str> = revealed.iter().map(|k| names[*k]).collect();
    let preds: &[(&'static str, &'static str, i32)] = if c.flag("predicate") { &[("age", "GE", 20)] } else { &[] };
    let linked = c.subset("linked", 3);
    let cm: Vec<&'static str> = linked.iter().map(|k| ["age", "name", "master_secret"][*k]).collect();
    let q = req(&r, preds);
    let nonce = new_nonce().unwrap();
    c.state(&(&q, &cm));
    let v = judge(|| verify(&prove(&[Part { iss: i, cred: &f.a, req: q.clone(), rev: None }], &cm, &nonce)?, &[Want::of(i, &q)], &cm, &nonce));
    let clash = cm.iter().any(|a| r.contains(a)) || preds.iter().any(|p| r.contains(&p.0));
    expect(c, v, !clash, "shapes", || format!("request {:?}, linked {:?}", q, cm))
}

/// Two credentials, linked through a common attribute or not.
fn pairs(f: &Fix, c: &mut Ctx) -> R {
    let (i1, i2) = (&f.w.i1, &f.w.i2);
    let b = c.choose("second credential", 3);
    let cred2 = [&f.b, &f.b_other, &f.b_age][b];
    let commons: [&[&str]; 4] = [&[], &["master_secret"], &["age"], &["age", "master_secret"]];
    let pc = commons[c.choose("prover links", 4)];
    let vc = commons[c.choose("verifier links", 4)];
    let rev = c.flag("revocation");
    let shape = c.choose("request", 3);
    let (q1, q2) = match shape {
        0 => (req(&[], &[]), req(&[], &[])),
        1 => (req(&["name"], &[("age", "GE", 20)]), req(&["status"], &[("age", "LT", 30)])),
        _ => (req(&["age"], &[]), req(&["status"], &[])),
    };
    let swap = c.thorough() && c.flag("second first");
    let nonce = new_nonce().unwrap();
    c.state(&(b, pc, vc, rev, shape, swap));
    let r1 = if rev { Some((&f.reg, &f.wit)) } else { None };
    let p1 = Part { iss: i1, cred: &f.a, req: q1.clone(), rev: r1 };
    let p2 = Part { iss: i2, cred: cred2, req: q2.clone(), rev: None };
    let mut w1 = Want::of(i1, &q1);
    if rev {
        w1 = w1.rev(&f.regs[0].pubk, &f.reg);
    }
    let w2 = Want::of(i2, &q2);
    let (parts, wants) = if swap { (vec![p2, p1], vec![w2, w1]) } else { (vec![p1, p2], vec![w1, w2]) };
    let v = judge(|| verify(&prove(&parts, pc, &nonce)?, &wants, vc, &nonce));
    // Linked attributes must be equal, hidden in every sub-proof and linked by the prover as well.
    let equal = |a: &str| match a {
        "master_secret" => b != 1,
        _ => b != 2,
    };
    let want = vc.iter().all(|a| pc.contains(a) && equal(a) && !(shape == 2 && *a == "age"));
    // A prover that links an attribute it reveals, or attributes that differ, is not honest:
    // whether it gets a proof at all is its own affair.
    let honest = pc.iter().all(|a| equal(a) && !(shape == 2 && *a == "age"));
    if want && !honest {
        c.step();
        return match v {
            Verdict::Panicked(p) => violation("pairs:panic", p),
            v => {
                c.outcome(format!("own affair: {}", v.class()));
                Ok(())
            }
        };
    }
    expect(c, v, want, "pairs", || {
        format!("second credential {}, prover links {:?}, verifier links {:?}, request {}, revocation {}", b, pc, vc, shape, rev)
    })
}

/// Three (or four) sub-proofs, each of the holder or not: linked attributes must be equal in all of them.
fn many(f: &Fix, c: &mut Ctx) -> R {
    let (i1, i2) = (&f.w.i1, &f.w.i2);
    let n = 3 + c.choose("sub-proofs", c.q(1, 2));
    let links: [&[&str]; 4] = [&["master_secret"], &["age"], &["age", "master_secret"], &[]];
    let l = links[c.choose("links", 4)];
    let slots: Vec<usize> = (0..n).map(|k| c.choose(&format!("credential {}", k), 4)).collect();
    c.state(&(l, &slots));
    let (q1, q2) = (req(&["name"], &[]), req(&[], &[]));
    let mut parts = vec![];
    let mut wants = vec![];
    for s in &slots {
        let (iss, cred, q) = match s {
            0 => (i1, &f.a, &q1),
            1 => (i2, &f.b, &q2),
            2 => (i2, &f.b_other, &q2),
            _ => (i2, &f.b_age, &q2),
        };
        parts.push(Part { iss, cred, req: q.clone(), rev: None });
        wants.push(Want::of(iss, q));
    }
    let nonce = new_nonce().unwrap();
    let v = judge(|| verify(&prove(&parts, l, &nonce)?, &wants, l, &nonce));
    let equal = |odd: usize| slots.iter().all(|s| *s == odd) || !slots.contains(&odd);
    let want = l.iter().all(|a| if *a == "master_secret" { equal(2) } else { equal(3) });
    expect(c, v, want, "many", || format!("credentials {:?} linked by {:?}", slots, l))
}

/// One verifier object used for several proofs decides each as a fresh one does.
fn reuse(f: &Fix, c: &mut Ctx) -> R {
    let (i1, i2) = (&f.w.i1, &f.w.i2);
    let two = c.flag("two credentials");
    let n = 1 + c.choose("calls", c.q(2, 4));
    let hist: Vec<usize> = (0..n).map(|k| c.choose(&format!("proof {}", k), 5)).collect();
    let q1 = req(&["name"], &[("age", "GE", 20)]);
    let q2 = req(&["status"], &[]);
    let nonces: Vec<Nonce> = (0..2).map(|_| new_nonce().unwrap()).collect();
    let mk = |kind: usize| -> (Proof, usize, bool) {
        let q = if kind == 3 { req(&["sex"], &[("age", "GE", 20)]) } else { q1.clone() };
        let other = if kind == 4 { &f.b_other } else { &f.b };
        let mut parts = vec![Part { iss: i1, cred: &f.a, req: q, rev: None }];
        if two {
            parts.push(Part { iss: i2, cred: other, req: q2.clone(), rev: None });
        }
        let nn = if kind == 1 { 1 } else { 0 };
        let p = prove(&parts, &["master_secret"], &nonces[nn]).unwrap();
        // kind 2: made for one nonce, checked with the other
        let check = if kind == 2 { 1 } else { nn };
        (p, check, kind < 2 || (kind == 4 && !two))
    };
    let mut wants = vec![Want::of(i1, &q1)];
    if two {
        wants.push(Want::of(i2, &q2));
    }
    let mut vf = verifier(&wants, &["master_secret"]).unwrap();
    c.state(&(two, &hist));
    for (k, kind) in hist.iter().enumerate() {
        let (p, nn, want) = mk(*kind);
        let v = judge(|| vf.verify(&p, &nonces[nn]));
        expect(c, v, want, "reuse", || format!("proof {} of the history {:?} on one verifier", k, hist))?;
    }
    Ok(())
}

/// A valid proof checked against anything but what it was made for.
fn mismatch(f: &Fix, c: &mut Ctx) -> R {
    let (i1, i2) = (&f.w.i1, &f.w.i2);
    let rev = c.flag("revocation");
    let q1 = req(&["name"], &[("age", "GE", 20)]);
    let q2 = req(&["status"], &[]);
    let nonce = new_nonce().unwrap();
    let nonce2 = new_nonce().unwrap();
    let r1 = if rev { Some((&f.reg, &f.wit)) } else { None };
    let p = prove(
        &[Part { iss: i1, cred: &f.a, req: q1.clone(), rev: r1 }, Part { iss: i2, cred: &f.b, req: q2.clone(), rev: None }],
        &["master_secret"],
        &nonce,
    )
    .unwrap();
    let big = schema_of(&["age", "name", "sex", "extra"]);
    let small = schema_of(&["age", "name"]);
    let big_non = non_schema_of(&["master_secret", "extra"]);
    let small_non = non_schema_of(&[]);
    let other_non = non_schema_of(&["mistress_secret"]);
    let reg_other = f.regs[1].reg0.clone();
    let mut revoked = f.reg.clone();
    ursa::cl::issuer::Issuer::revoke_credential(&mut revoked, 3, 1, &f.regs[0].tails).unwrap();
    // what the verifier asks of sub-proof 1
    let reqs: Vec<(&str, Req)> = vec![
        ("nothing revealed", req(&[], &[("age", "GE", 20)])),
        ("other revealed", req(&["sex"], &[("age", "GE", 20)])),
        ("more revealed", req(&["name", "sex"], &[("age", "GE", 20)])),
        ("predicate attribute revealed too", req(&["name", "age"], &[("age", "GE", 20)])),
        ("no predicate", req(&["name"], &[])),
        ("other threshold", req(&["name"], &[("age", "GE", 21)])),
        ("lower threshold", req(&["name"], &[("age", "GE", 19)])),
        ("other type", req(&["name"], &[("age", "GT", 20)])),
        ("opposite type", req(&["name"], &[("age", "LE", 20)])),
        ("other attribute", req(&["name"], &[("sex", "GE", 20)])),
        ("more predicates", req(&["name"], &[("age", "GE", 20), ("sex", "GE", 20)])),
        ("same attribute twice", req(&["name"], &[("age", "GE", 20), ("age", "GE", 19)])),
    ];
    let base_rev = if rev { Some((&f.regs[0].pubk, &f.reg)) } else { None };
    let plain = |q: &Req| Want { pk: &i1.pk, schema: &i1.schema, non: &i1.non, req: q.clone(), rev: base_rev };
    let w2 = || Want::of(i2, &q2);
    let what: String;
    let mut common: Vec<&str> = vec!["master_secret"];
    let mut n = &nonce;
    let mut accepted = false;
    let k = c.choose("deviation", 1 + reqs.len() + 20);
    let wants: Vec<Want> = if k == 0 {
        what = "none".into();
        accepted = true;
        vec![plain(&q1), w2()]
    } else if k <= reqs.len() {
        what = reqs[k - 1].0.into();
        vec![plain(&reqs[k - 1].1), w2()]
    } else {
        let mut w = plain(&q1);
        let (name, ws): (&str, Vec<Want>) = match k - 1 - reqs.len() {
            0 => {
                n = &nonce2;
                ("other nonce", vec![w, w2()])
            }
            1 => {
                w.pk = &f.i3.pk;
                ("other issuer, same schema", vec![w, w2()])
            }
            2 => {
                w.schema = &big;
                ("schema with one more attribute", vec![w, w2()])
            }
            3 => {
                w.schema = &small;
                ("schema with one attribute less", vec![w, w2()])
            }
            4 => {
                w.non = &big_non;
                ("one more hidden attribute", vec![w, w2()])
            }
            5 => {
                w.non = &small_non;
                ("no hidden attribute", vec![w, w2()])
            }
            6 => {
                w.non = &other_non;
                ("another hidden attribute", vec![w, w2()])
            }
            7 => ("swapped", vec![w2(), w]),
            8 => ("only the first", vec![w]),
            9 => ("only the second", vec![w2()]),
            10 => ("the first twice", vec![w, plain(&q1)]),
            11 => {
                common = vec!["master_secret", "age"];
                ("age linked as well", vec![w, w2()])
            }
            12 => {
                common = vec!["name"];
                ("a revealed attribute linked", vec![w, w2()])
            }
            13 => {
                common = vec!["nonsense"];
                ("an unknown attribute linked", vec![w, w2()])
            }
            14 => {
                common = vec![];
                accepted = true;
                ("nothing linked", vec![w, w2()])
            }
            15 => {
                w.rev = Some((&f.regs[0].pubk, &revoked));
                ("another state of the registry", vec![w, w2()])
            }
            16 => {
                w.rev = Some((&f.regs[1].pubk, &f.reg));
                ("another registry key", vec![w, w2()])
            }
            17 => {
                w.rev = Some((&f.regs[1].pubk, &reg_other));
                ("another registry", vec![w, w2()])
            }
            18 => {
                if rev {
                    w.rev = None;
                } else {
                    w.rev = Some((&f.regs[0].pubk, &f.reg));
                }
                ("revocation the other way round", vec![w, w2()])
            }
            _ => ("one more", vec![w, w2(), w2()]),
        };
        what = name.into();
        ws
    };
    c.note(what.clone());
    c.state(&(rev, k));
    let v = judge(|| verify(&p, &wants, &common, n));
    expect(c, v, accepted, &format!("mismatch:{}", what.replace(' ', "-")), || {
        format!("proof for {:?} + {:?} (revocation {}) checked with deviation: {}", q1, q2, rev, what)
    })
}

struct Doc {
    nonce: Nonce,
    doc: Value,
    other: Value,
    rev: bool,
    q1: Req,
    q2: Req,
}
fn doc(f: &Fix, rev: bool) -> Doc {
    let q1 = req(&["name"], &[("age", "GE", 20)]);
    let q2 = req(&["status"], &[("age", "LT", 40)]);
    let nonce = new_nonce().unwrap();
    let mk = || {
        let r1 = if rev { Some((&f.reg, &f.wit)) } else { None };
        let parts = [Part { iss: &f.w.i1, cred: &f.a, req: q1.clone(), rev: r1 }, Part { iss: &f.w.i2, cred: &f.b, req: q2.clone(), rev: None }];
        jval(&prove(&parts, &["master_secret"], &nonce).unwrap())
    };
    let (doc, other) = (mk(), mk());
    Doc { nonce, doc, other, rev, q1, q2 }
}
/// Alterations of a proof; the byte strings of the challenge list are altered as units.
fn proof_alterations(d: &Doc) -> Vec<(String, Value)> {
    let fold = |v: &Value| {
        let mut v = v.clone();
        if let Some(l) = v.pointer_mut("/aggregated_proof/c_list").and_then(|x| x.as_array_mut()) {
            for e in l.iter_mut() {
                let b: Vec<u8> = serde_json::from_value(e.clone()).unwrap();
                *e = json!(format!("@{}", hexs(&b)));
            }
        }
        v
    };
    let unfold = |v: &Value| {
        let mut v = v.clone();
        if let Some(l) = v.pointer_mut("/aggregated_proof/c_list").and_then(|x| x.as_array_mut()) {
            for e in l.iter_mut() {
                let s = e.as_str().map(|s| s.to_string()).unwrap_or_default();
                if let Some(h) = s.strip_prefix('@') {
                    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    *e = json!(b);
                }
            }
        }
        v
    };
    let folded = fold(&d.doc);
    let mut out: Vec<(String, Value)> = alterations(&folded, Some(&fold(&d.other))).into_iter().map(|(n, v)| (n, unfold(&v))).collect();
    // the same sub-proofs in another arrangement
    let ps = d.doc["proofs"].as_array().unwrap().clone();
    for (n, l) in vec![
        ("sub-proofs swapped", vec![ps[1].clone(), ps[0].clone()]),
        ("first sub-proof only", vec![ps[0].clone()]),
        ("first sub-proof twice", vec![ps[0].clone(), ps[0].clone()]),
        ("one more sub-proof", vec![ps[0].clone(), ps[1].clone(), ps[1].clone()]),
    ] {
        let mut v = d.doc.clone();
        v["proofs"] = json!(l);
        out.push((n.to_string(), v));
    }
    // the first byte string of the challenge list, bit by bit
    for k in 0..d.doc["aggregated_proof"]["c_list"].as_array().unwrap().len() {
        let mut v = d.doc.clone();
        let b = v["aggregated_proof"]["c_list"][k][0].as_u64().unwrap();
        v["aggregated_proof"]["c_list"][k][0] = json!(b ^ 1);
        out.push((format!("/aggregated_proof/c_list/{} first byte", k), v));
    }
    out
}
fn tamper(f: &Fix, docs: &[(Doc, Vec<(String, Value)>)], c: &mut Ctx) -> R {
    let k = c.choose("proof", docs.len());
    let (d, alts) = &docs[k];
    let a = c.choose("alteration", alts.len() + 1);
    let (name, altered) = if a == 0 { ("none".to_string(), d.doc.clone()) } else { alts[a - 1].clone() };
    c.note(name.clone());
    c.state(&(k, a));
    let p: Proof = match guard(|| unj(&altered)) {
        Ok(Ok(p)) => p,
        Ok(Err(_)) => {
            c.step();
            c.outcome("refused (not decodable)");
            return Ok(());
        }
        Err(p) => return violation("tamper:decode-panic", format!("decoding a proof with {}: {}", name, p)),
    };
    if a > 0 && jval(&p) == d.doc {
        c.outcome("same value");
        return Ok(());
    }
    let mut w1 = Want::of(&f.w.i1, &d.q1);
    if d.rev {
        w1 = w1.rev(&f.regs[0].pubk, &f.reg);
    }
    let v = judge(|| verify(&p, &[w1, Want::of(&f.w.i2, &d.q2)], &["master_secret"], &d.nonce));
    let key = format!("tamper:{}", name.split(' ').next().unwrap());
    expect(c, v, a == 0, &key, || format!("proof with {}", name))
}

pub fn build(_t: Tier) -> Check {
    let f = fix();
    let creds: Arc<Vec<Cred>> = Arc::new(
        [("28", NAME), ("28", "0"), ("28", MAX256)].iter().map(|(a, n)| {
            let mut v = std_vals(MS1, a, n);
            v[3].2 = "1".into();
            issue(&f.w.i1, &v, PROVER_ID).unwrap()
        }).collect(),
    );
    let docs: Arc<Vec<(Doc, Vec<(String, Value)>)>> = Arc::new([false, true].iter().map(|r| {
        let d = doc(&f, *r);
        let a = proof_alterations(&d);
        (d, a)
    }).collect());
    let (f1, f2, f3, f4, f5, f6, f7) = (f.clone(), f.clone(), f.clone(), f.clone(), f.clone(), f.clone(), f);
    Check {
        rule: "An execution is one presentation: the choices fix the credentials, the request, the linked attributes, the revocation part, the history of proofs checked by one verifier, or the single deviation between what was proven and what is checked (every element of the proof x mutations; every element of the verifier's view). A state is one combination of choices.".into(),
        assumptions: vec!["2048-bit keys from fixed seeds; attribute values from a fixed set incl. 0 and 2^256-1".into()],
        scenarios: vec![
            Scenario::new("complete", "all revealed subsets x 5 predicate sets x 3 credentials x linked or not x JSON or not", move |c| complete(&f1, &creds, c)),
            Scenario::new("shapes", "all subsets of revealed attributes x predicate x linked attributes", move |c| shapes(&f7, c)),
            Scenario::new("pairs", "2 credentials x 3 holders/values x 4 x 4 links x 3 requests x revocation (x order)", move |c| pairs(&f2, c)),
            Scenario::new("many", "3 (4) sub-proofs x 4 credentials in each place x 4 links", move |c| many(&f6, c)),
            Scenario::new("reuse", "all histories of up to 2 (4) proofs of 5 kinds on one verifier, 1 or 2 credentials", move |c| reuse(&f3, c)),
            Scenario::new("mismatch", "each of 32 deviations of the verifier's view, with and without revocation", move |c| mismatch(&f4, c)),
            Scenario::new("tamper", "each leaf of the proof x mutations, each removal, sub-proofs rearranged, with and without revocation", move |c| tamper(&f5, &docs, c)),
        ],
    }
}
