//! C07: presentations, requests for credentials and issuers' proofs hide the secrets in them.
//! Every blinding is found out by rewinding: the same first move is answered for two challenges.
use crate::c02::{fix, Fix};
use crate::world::*;
use mc::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;

const ORDER: &str = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
/// A blinding hides `secret` behind a challenge of 256 bits if it is longer than both together by this.
const SLACK: u64 = 40;

fn int(v: &Value) -> BigInt {
    v.as_str().expect("number").parse().expect("dec")
}
fn hex(v: &Value) -> BigInt {
    BigInt::parse_bytes(v.as_str().expect("element").as_bytes(), 16).expect("hex")
}
fn order() -> BigInt {
    ORDER.parse().unwrap()
}
fn inv(a: &BigInt, m: &BigInt) -> BigInt {
    let g = a.mod_floor(m).extended_gcd(m);
    assert!(g.gcd.is_one());
    g.x.mod_floor(m)
}

/// One response: its name, whether it is an element of the group's field, and for two challenges the values.
struct Resp {
    name: String,
    field: bool,
    secret: BigInt,
    blind: BigInt,
}
/// The responses of a document, by name.
fn responses(sub: &Value) -> Vec<(String, bool, BigInt)> {
    let mut out = vec![];
    let eq = &sub["primary_proof"]["eq_proof"];
    for k in &["e", "v", "m2"] {
        out.push((k.to_string(), false, int(&eq[*k])));
    }
    for (k, x) in eq["m"].as_object().unwrap() {
        out.push((format!("m.{}", k), false, int(x)));
    }
    let p = &sub["primary_proof"];
    for (i, ne) in p["ne_proofs"].as_array().or_else(|| p["ge_proofs"].as_array()).expect("predicates").iter().enumerate() {
        for l in &["u", "r"] {
            for (k, x) in ne[*l].as_object().unwrap() {
                out.push((format!("predicate{}.{}.{}", i, l, k), false, int(x)));
            }
        }
        out.push((format!("predicate{}.alpha", i), false, int(&ne["alpha"])));
    }
    if let Some(x) = sub["non_revoc_proof"]["x_list"].as_object() {
        for (k, x) in x {
            out.push((format!("revocation.{}", k), true, hex(x)));
        }
    }
    out
}
fn extract(c1: &BigInt, c2: &BigInt, a: Vec<(String, bool, BigInt)>, b: Vec<(String, bool, BigInt)>) -> Result<Vec<Resp>, Violation> {
    let q = order();
    let dc = c1 - c2;
    let other: BTreeMap<String, BigInt> = b.into_iter().map(|(k, _, x)| (k, x)).collect();
    let mut out = vec![];
    for (name, field, x) in a {
        let y = other.get(&name).ok_or_else(|| Violation { key: "shape".into(), msg: format!("{} in one proof only", name) })?;
        let (secret, blind) = if field {
            let s = ((&x - y) * inv(&dc, &q)).mod_floor(&q);
            let t = (&x - c1 * &s).mod_floor(&q);
            (s, t)
        } else {
            let (s, rem) = (&x - y).div_rem(&dc);
            if !rem.is_zero() {
                return Err(Violation { key: "extract".into(), msg: format!("{}: no value answers both challenges", name) });
            }
            let t = &x - c1 * &s;
            (s, t)
        };
        out.push(Resp { name, field, secret, blind });
    }
    Ok(out)
}
/// The length a secret of that name may have at most; the actual length otherwise.
fn secret_bits(r: &Resp) -> u64 {
    let actual = r.secret.bits();
    let least = match r.name.rsplit('.').next().unwrap() {
        "e" => 119,
        _ if r.name.starts_with("m.") || r.name == "m2" => 256,
        _ if r.name.contains(".r.") || r.name == "v_prime" => 2128,
        _ => 0,
    };
    actual.max(least)
}
/// Every blinding is long enough for what it hides.
fn sizes(c: &mut Ctx, rs: &[Resp], at: &str) -> R {
    for r in rs {
        c.step();
        if r.field {
            c.ensure(r.blind.bits() + SLACK >= order().bits(), "short", || format!("{}: {}: blinding of {} bits", at, r.name, r.blind.bits()))?;
            continue;
        }
        let need = secret_bits(r) + 256 + SLACK;
        let kind = r.name.rsplit('.').nth(if r.name.starts_with("predicate") && !r.name.ends_with("alpha") { 1 } else if r.name.starts_with("m.") { 1 } else { 0 }).unwrap();
        c.soft_ensure(r.blind.bits() >= need && !r.blind.is_negative(), &format!("short-{}", kind), || {
            format!("{}: the blinding of {} has {} bits; the secret ({} bits) and the challenge (256) need {}", at, r.name, r.blind.bits(), secret_bits(r), need)
        })?;
    }
    Ok(())
}
trait SoftEnsure {
    fn soft_ensure(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> R;
}
impl SoftEnsure for Ctx {
    fn soft_ensure(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> R {
        if !ok {
            self.soft(key, msg());
        }
        Ok(())
    }
}
/// No two blindings are the same or near to one another. `linked` names values that must be blinded alike.
fn fresh(c: &mut Ctx, all: &[(String, &Resp)], linked: impl Fn(&str, &str) -> bool) -> R {
    for i in 0..all.len() {
        for j in 0..i {
            let ((ni, a), (nj, b)) = (&all[i], &all[j]);
            c.step();
            let q = order();
            if linked(ni, nj) {
                // the responses may only be the same, or the negation of one another, in everything
                for sign in &[1i32, -1] {
                    let same = |x: &BigInt, y: &BigInt| { let d: BigInt = x - y * BigInt::from(*sign); d.mod_floor(&q).is_zero() };
                    let leak = same(&a.blind, &b.blind) && !same(&a.secret, &b.secret);
                    c.ensure(!leak, "opposite", || format!("{} and {} have the same blinding for other values: their difference shows them", ni, nj))?;
                }
                continue;
            }
            let near = |d: BigInt| if a.field != b.field || a.field { d.mod_floor(&q).min((-d).mod_floor(&q)) } else { d };
            let least = a.blind.bits().min(b.blind.bits()).min(if a.field || b.field { 254 } else { u64::MAX });
            for d in vec![&a.blind - &b.blind, &a.blind + &b.blind] {
                c.ensure(near(d).bits() + 64 >= least, "reused", || format!("{} and {} have the same blinding, or nearly", ni, nj))?;
            }
        }
    }
    Ok(())
}
/// Everything a document shows: numbers, points and the byte strings of the challenge list.
fn shown(doc: &Value) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    walk(doc, "".into(), &mut out);
    out
}
fn walk(v: &Value, at: String, out: &mut BTreeMap<String, String>) {
    match v {
        Value::Array(a) if a.len() > 8 && a.iter().all(|x| x.is_u64()) => {
            let bytes: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
            out.insert(at, BigInt::from_bytes_be(num_bigint::Sign::Plus, &bytes).to_string());
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| walk(x, format!("{}/{}", at, i), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| walk(x, format!("{}/{}", at, k), out)),
        Value::String(s) if s.len() > 12 => {
            out.insert(at, s.clone());
        }
        _ => {}
    }
}
/// Two documents show nothing in common but what is in `given`.
fn apart(c: &mut Ctx, a: &Value, b: &Value, given: &BTreeSet<String>, key: &str, what: &str) -> R {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in shown(a) {
        seen.insert(v, k);
    }
    for (k, v) in shown(b) {
        c.step();
        if given.contains(&v) {
            continue;
        }
        if let Some(o) = seen.get(&v) {
            return violation(key, format!("{}: {} and {} are the same", what, o, k));
        }
    }
    Ok(())
}
/// No two things shown by one document are the same (a value in the challenge list is shown elsewhere too).
fn once(c: &mut Ctx, doc: &Value, given: &BTreeSet<String>, what: &str) -> R {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in shown(doc) {
        c.step();
        if given.contains(&v) || k.contains("c_list") || k.ends_with("/mj") || k.contains("/m/") {
            continue;
        }
        if let Some(o) = seen.insert(v, k.clone()) {
            return violation("repeated", format!("{}: {} and {} are the same", what, o, k));
        }
    }
    Ok(())
}

struct Shape {
    two: bool,
    linked: bool,
    rev: bool,
    revealed: Vec<&'static str>,
    preds: Vec<(&'static str, &'static str, i32)>,
}
fn builder(f: &Fix, s: &Shape, again: bool) -> U<ursa::cl::prover::ProofBuilder> {
    let mut b = Prover::new_proof_builder()?;
    if s.linked {
        b.add_common_attribute("master_secret")?;
    }
    let r = if s.rev { Some((&f.reg, &f.wit)) } else { None };
    let p1 = request(&req(&s.revealed, &s.preds));
    b.add_sub_proof_request(&p1, &f.w.i1.schema, &f.w.i1.non, &f.a.sig, &f.a.values(), &f.w.i1.pk, r.map(|x| x.0), r.map(|x| x.1))?;
    if s.two {
        // the second credential: another issuer's, or the same credential again
        if again {
            b.add_sub_proof_request(&p1, &f.w.i1.schema, &f.w.i1.non, &f.a.sig, &f.a.values(), &f.w.i1.pk, r.map(|x| x.0), r.map(|x| x.1))?;
        } else {
            b.add_sub_proof_request(&request(&req(&[], &[("age", "GE", 18)])), &f.w.i2.schema, &f.w.i2.non, &f.b.sig, &f.b.values(), &f.w.i2.pk, None, None)?;
        }
    }
    Ok(b)
}
fn present(f: &Fix, c: &mut Ctx) -> R {
    let creds = c.choose("credentials", 3);
    let s = Shape {
        two: creds > 0,
        linked: c.flag("linked"),
        rev: c.flag("revocation"),
        revealed: c.subset("revealed", 3).into_iter().map(|i| ["age", "name", "sex"][i]).collect(),
        preds: c.pick("predicates", &[
            vec![],
            vec![("age", "GE", 18)],
            vec![("age", "LT", 100)],
            vec![("age", "GT", 27), ("age", "LE", 28)],
        ]),
    };
    let preds: Vec<_> = s.preds.iter().filter(|p| !s.revealed.contains(&p.0)).cloned().collect();
    if preds.len() != s.preds.len() {
        return Ok(()); // predicates about revealed attributes: no proof is made
    }
    c.state(&(creds, s.linked, s.rev, &s.revealed, &s.preds));
    let mut all: Vec<Vec<Resp>> = vec![];
    let mut docs = vec![];
    for k in 0..c.q(2, 6) {
        let b = builder(f, &s, creds == 2).expect("builder");
        let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
        let (p1, p2) = (jval(&b.finalize(&n1).expect("proof")), jval(&b.finalize(&n2).expect("proof")));
        let (c1, c2) = (int(&p1["aggregated_proof"]["c_hash"]), int(&p2["aggregated_proof"]["c_hash"]));
        c.ensure(c1 != c2, "challenge", || "the same challenge for two nonces".into())?;
        let mut rs = vec![];
        for i in 0..p1["proofs"].as_array().unwrap().len() {
            let e = extract(&c1, &c2, responses(&p1["proofs"][i]), responses(&p2["proofs"][i]))?;
            let (cred, iss) = if i == 0 || creds == 2 { (&f.a, &f.w.i1) } else { (&f.b, &f.w.i2) };
            for r in &e {
                if let Some(a) = r.name.strip_prefix("m.") {
                    let v = cred.vals.iter().find(|x| x.0 == a).expect("attribute");
                    c.ensure(r.secret.to_string() == v.2, "extract", || format!("{} is proven to be {}", r.name, r.secret))?;
                }
                if r.name.contains(".r.") {
                    c.ensure(r.secret.bits() + SLACK >= 2128, "short-commitment", || format!("{}: {} bits hide a committed number", r.name, r.secret.bits()))?;
                }
            }
            sizes(c, &e, &format!("sub-proof {}", i))?;
            // what blinds the signature: v = v' + e r
            let sig = jval(&cred.sig)["p_credential"].clone();
            let e_ = e.iter().find(|r| r.name == "v").unwrap();
            let (r, rem) = (int(&sig["v"]) - &e_.secret).div_rem(&int(&sig["e"]));
            c.ensure(rem.is_zero(), "extract", || "v' is not v - e r".into())?;
            c.ensure(r.bits() + SLACK >= 2128, "short-signature", || format!("sub-proof {}: the signature is hidden by {} bits", i, r.bits()))?;
            let _ = iss;
            rs.extend(e.into_iter().map(|mut x| {
                x.name = format!("{}.{}", i, x.name);
                x
            }));
        }
        all.push(rs);
        docs.push(p1);
        c.note(format!("presentation {}", k));
    }
    let named: Vec<(String, &Resp)> = all.iter().enumerate().flat_map(|(k, rs)| rs.iter().map(move |r| (format!("{}.{}", k, r.name), r))).collect();
    let linked = s.linked;
    fresh(c, &named, |a, b| {
        let (pa, ra) = a.split_at(2);
        let (pb, rb) = b.split_at(2);
        if pa != pb {
            return false;
        }
        // linked values, and the part of the credential both proofs are about
        let ms = |x: &str| x.ends_with(".m.master_secret");
        let m2 = |x: &str| &x[2..] == "m2" || &x[2..] == "revocation.m2";
        (linked && ms(ra) && ms(rb)) || (m2(ra) && m2(rb) && ra[..1] == rb[..1])
    })?;
    // what is committed to is hidden by another random number each time
    let hiding: Vec<&(String, &Resp)> = named
        .iter()
        .filter(|(n, r)| n.contains(".r.") || n.ends_with(".v") || (r.field && !["revocation.m2", "revocation.s", "revocation.c"].iter().any(|x| n.ends_with(x))))
        .collect();
    for i in 0..hiding.len() {
        for j in 0..i {
            c.step();
            c.ensure(hiding[i].1.secret != hiding[j].1.secret, "randomness", || format!("{} and {} are hidden by the same number", hiding[i].0, hiding[j].0))?;
        }
    }
    let mut given: BTreeSet<String> = BTreeSet::new();
    for (a, _, v) in f.a.vals.iter() {
        if s.revealed.contains(a) {
            given.insert(v.clone());
        }
    }
    for a in 0..docs.len() {
        for b in 0..a {
            apart(c, &docs[a], &docs[b], &given, "linkable", "two presentations")?;
        }
    }
    for d in &docs {
        once(c, d, &given, "a presentation")?;
        let held = json!([jval(&f.a.sig), jval(&f.b.sig), jval(&f.wit), jval(&f.a.vals.iter().map(|x| x.2.clone()).collect::<Vec<_>>())]);
        apart(c, &held, d, &given, "shown", "the credential and a presentation")?;
    }
    c.outcome("hidden");
    Ok(())
}

fn request_vals(kinds: &[Kind]) -> Vals {
    let mut v: Vals = vec![("master_secret", Kind::Hidden, MS1.to_string())];
    let names = ["age", "name", "sex"];
    let vs = ["28", NAME, MAX256];
    for i in 0..3 {
        v.push((names[i], kinds[i], vs[i].to_string()));
    }
    v
}
/// A request for a credential, by rewinding: the same randomness for two nonces.
fn asked(f: &Fix, c: &mut Ctx) -> R {
    let kinds: Vec<Kind> = (0..3).map(|i| c.pick(&format!("attribute {}", i), &[Kind::Known, Kind::Commit, Kind::Hidden])).collect();
    // an issuer whose schema has the chosen attributes hidden is not needed: the issuer signs what the request hides
    let i = &f.w.i1;
    let vals = request_vals(&kinds);
    c.state(&kinds);
    let hv = values(&vals);
    let mut all = vec![];
    let mut docs = vec![];
    for k in 0..c.q(2, 6) as u64 {
        let seed = 1000 + k;
        let run = |n: &Nonce| {
            rng::seed(seed);
            Prover::blind_credential_secrets(&i.pk, &i.kcp, &hv, n).map(|(b, f, p)| (jval(&b), jval(&f), jval(&p)))
        };
        let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
        let (b1, f1, p1) = match run(&n1) {
            Ok(x) => x,
            Err(_) => {
                c.outcome("refused");
                return Ok(());
            }
        };
        let (b2, _, p2) = run(&n2).expect("request");
        let (b2, p2) = if b1["u"] == b2["u"] { (b2, p2) } else { run(&n2).map(|x| (x.0, x.2)).expect("request") };
        let (b1, f1, p1) = if b1["u"] == b2["u"] { (b1, f1, p1) } else { run(&n1).expect("request") };
        if b1["u"] != b2["u"] {
            c.outcome("not rewound");
            continue;
        }
        let rs = |p: &Value| {
            let mut o = vec![("v_prime".to_string(), false, int(&p["v_dash_cap"]))];
            for (k, x) in p["m_caps"].as_object().unwrap() {
                o.push((format!("m.{}", k), false, int(x)));
            }
            for (k, x) in p["r_caps"].as_object().unwrap() {
                o.push((format!("b.{}", k), false, int(x)));
            }
            o
        };
        let e = extract(&int(&p1["c"]), &int(&p2["c"]), rs(&p1), rs(&p2))?;
        for r in &e {
            if let Some(a) = r.name.strip_prefix("m.") {
                let v = vals.iter().find(|x| x.0 == a).expect("attribute");
                c.ensure(r.secret.to_string() == v.2, "extract", || format!("{} is proven to be {}", r.name, r.secret))?;
            }
            if r.name == "v_prime" {
                c.ensure(r.secret == int(&f1["v_prime"]), "extract", || "v'".into())?;
                c.ensure(r.secret.bits() + SLACK >= 2128, "short-request", || format!("the request is hidden by {} bits", r.secret.bits()))?;
            }
        }
        sizes(c, &e, "request")?;
        all.push(e);
        // what depends on the holder's own blinding factors is the same each time
        let mut shown = b1.clone();
        shown["committed_attributes"] = json!(null);
        shown["hidden_attributes"] = json!(null);
        docs.push((shown, p1, f1, b1));
    }
    let named: Vec<(String, &Resp)> = all.iter().enumerate().flat_map(|(k, rs)| rs.iter().map(move |r| (format!("{}.{}", k, r.name), r))).collect();
    fresh(c, &named, |_, _| false)?;
    let none = BTreeSet::new();
    apart(c, &json!([docs[0].0, docs[0].1, docs[0].2]), &json!([docs[1].0, docs[1].1, docs[1].2]), &none, "linkable", "two requests")?;
    let held = json!([docs[0].2, vals.iter().map(|x| x.2.clone()).collect::<Vec<_>>()]);
    apart(c, &held, &json!([docs[0].3, docs[0].1]), &none, "shown", "the secrets and the request")?;
    c.outcome("hidden");
    Ok(())
}

/// What an issuer's answers show of its key, and that it never answers twice alike.
fn answered(f: &Fix, c: &mut Ctx) -> R {
    let two = c.choose("issuer", 3);
    let i = [&f.w.i1, &f.w.i2, &f.i3][two];
    let revocable = two != 1 && c.flag("revocation");
    let mode = c.choose("the same", 3);
    let vals = if two == 1 { vals2(MS1, "28", "51") } else { std_vals(MS1, "28", NAME) };
    let hv = values(&vals);
    let sk = jval(&i.sk)["p_key"].clone();
    let (p, q) = (int(&sk["p"]), int(&sk["q"]));
    let phi = &p * &q;
    let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
    let ask = || Prover::blind_credential_secrets(&i.pk, &i.kcp, &hv, &n1).unwrap();
    let (bs, _, bp) = ask();
    let (bs2, _, bp2) = ask();
    let reg = if revocable { Some(if two == 0 { &f.regs[0] } else { &f.regs[2] }) } else { None };
    c.state(&(two, revocable, mode));
    let mut docs: Vec<Value> = vec![];
    let mut blinds: Vec<BigInt> = vec![];
    for k in 0..3 {
        // the same request again, another request, another nonce
        let (s, pr) = if k > 0 && mode == 1 { (&bs2, &bp2) } else { (&bs, &bp) };
        let n = if k > 0 && mode == 2 { new_nonce().unwrap() } else { clone(&n2) };
        let (sig, proof) = match reg {
            None => Issuer::sign_credential(PROVER_ID, s, pr, &n1, &n, &values(&known(&vals)), &i.pk, &i.sk).unwrap(),
            Some(r) => {
                let mut reg = r.reg0.clone();
                let (a, b, _) = Issuer::sign_credential_with_revoc(
                    PROVER_ID, s, pr, &n1, &n, &values(&known(&vals)), &i.pk, &i.sk, 2, r.max, r.by_default, &mut reg, &r.priv_, &r.tails,
                ).unwrap();
                (a, b)
            }
        };
        let (sig, proof) = (jval(&sig), jval(&proof));
        let e = int(&sig["p_credential"]["e"]);
        let v = int(&sig["p_credential"]["v"]);
        c.step();
        c.ensure(e.bits() == 597 && v.bits() == 2724, "signature-size", || format!("e has {} bits, v'' {}", e.bits(), v.bits()))?;
        let r = (int(&proof["se"]) + int(&proof["c"]) * inv(&e, &phi)).mod_floor(&phi);
        c.ensure(r.bits() + SLACK >= phi.bits(), "short", || format!("the issuer's proof is blinded by {} bits", r.bits()))?;
        blinds.push(r);
        let mut shown = json!([sig, proof]);
        // the context and the tail's index are the credential's own
        shown[0]["p_credential"]["m_2"] = json!(null);
        if shown[0]["r_credential"].is_object() {
            for x in &["g_i", "witness_signature", "m2"] {
                let w = shown[0]["r_credential"][*x].clone();
                shown[0]["r_credential"][*x] = if *x == "witness_signature" { json!({"sigma_i": w["sigma_i"]}) } else { json!(null) };
            }
            shown[0]["r_credential"]["witness_signature"] = json!(null);
        }
        docs.push(shown);
    }
    let none = BTreeSet::new();
    for a in 0..3 {
        for b in 0..a {
            c.ensure(blinds[a] != blinds[b], "reused", || "the issuer's blinding".into())?;
            apart(c, &docs[a], &docs[b], &none, "linkable", "two signatures")?;
        }
    }
    // the proof about the key
    let k = jval(&i.kcp);
    let c_ = int(&k["c"]);
    let mut rs = vec![("xz".to_string(), int(&k["xz_cap"]))];
    for x in k["xr_cap"].as_array().unwrap() {
        rs.push((x[0].as_str().unwrap().to_string(), int(&x[1])));
    }
    for (name, r) in &rs {
        c.step();
        // either the response is reduced by the group's order, or its blinding is longer than challenge and secret
        let reduced = r < &phi;
        if !reduced && r.bits() < phi.bits() + c_.bits() + SLACK {
            c.soft("short-key", format!("the proof about the key: the response for {} has {} bits; its secret {} and the challenge 256", name, r.bits(), phi.bits()));
        }
        for (other, s) in &rs {
            if other != name {
                c.ensure((r - s).bits() + 64 >= r.bits().min(s.bits()), "reused", || format!("{} and {}", name, other))?;
                // the same blinding: the difference is a multiple of the challenge
                c.ensure(!(r - s).is_multiple_of(&c_), "reused", || format!("{} and {}", name, other))?;
            }
        }
    }
    c.outcome("hidden");
    Ok(())
}
/// Nonces and master secrets: as long as they have to be, and never the same.
fn numbers(c: &mut Ctx) -> R {
    let master = c.flag("master secret");
    let n = 64;
    let mut seen = BTreeSet::new();
    let (mut or, mut and) = (BigInt::zero(), -BigInt::one());
    for _ in 0..n {
        c.step();
        let x = if master { int(&jval(&Prover::new_master_secret().unwrap())["ms"]) } else { int(&jval(&new_nonce().unwrap())) };
        or = or | &x;
        and = and & &x;
        c.ensure(seen.insert(x), "reused", || "drawn twice".into())?;
    }
    let bits = if master { 256 } else { 80 };
    c.ensure(or.bits() == bits && or.clone() + 1u32 == BigInt::one() << bits as usize, "bits", || format!("of {} numbers no one has some bit of {} set: {:x}", n, bits, or))?;
    c.ensure(and.is_zero(), "bits", || format!("of {} numbers all have a bit set: {:x}", n, and))?;
    c.outcome("distinct");
    Ok(())
}

pub fn build(_t: Tier) -> Check {
    let f = fix();
    let (f1, f2, f3) = (f.clone(), f.clone(), f);
    let _: &Arc<Fix> = &f3;
    Check {
        rule: "An execution is one shape of presentation, request or signature, made twice; its first move is answered for two challenges (rewinding), which gives every secret and every blinding number in it. Each blinding is measured against what it hides, each pair of blindings and of shown values is compared. A state is one shape.".into(),
        assumptions: vec!["2048-bit keys from fixed seeds; one set of random numbers per shape (two presentations each, six in the thorough tier)".into()],
        scenarios: vec![
            Scenario::new("presentation", "3 sets of credentials x linked or not x with and without revocation x all revealed subsets x 4 predicate sets", move |c| present(&f1, c)),
            Scenario::new("request", "each attribute known, committed or hidden", move |c| asked(&f2, c)),
            Scenario::new("issuer", "3 issuers x with and without revocation x same request, another request, another nonce", move |c| answered(&f3, c)),
            Scenario::new("numbers", "64 nonces, 64 master secrets", numbers),
        ],
    }
}
