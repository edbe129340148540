//! C08: every object keeps its meaning through serialisation, and a malformed document is an
//! error, there or where the object is used, never a panic.
use crate::c02::{fix, Fix};
use crate::world::*;
use mc::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;

const FORMATS: [&str; 5] = ["as it is", "JSON text", "JSON value", "JSON reader", "CBOR"];
fn through<T: Serialize + DeserializeOwned>(t: T, format: usize) -> Result<T, String> {
    let s = |e: &dyn std::fmt::Display| e.to_string();
    match format {
        0 => Ok(t),
        1 => serde_json::from_str(&serde_json::to_string(&t).map_err(|e| s(&e))?).map_err(|e| s(&e)),
        2 => serde_json::from_value(serde_json::to_value(&t).map_err(|e| s(&e))?).map_err(|e| s(&e)),
        3 => serde_json::from_reader(&serde_json::to_vec_pretty(&t).map_err(|e| s(&e))?[..]).map_err(|e| s(&e)),
        _ => serde_cbor::from_slice(&serde_cbor::to_vec(&t).map_err(|e| s(&e))?).map_err(|e| s(&e)),
    }
}
/// One object on its way: through the run's format, and another one where the run deviates.
fn hop<T: Serialize + DeserializeOwned>(c: &mut Ctx, base: usize, what: &str, t: T) -> Result<T, Violation> {
    let f = if c.thorough() {
        (base + c.deviate(what, FORMATS.len())) % FORMATS.len()
    } else if base == 0 {
        [0, 1, 4][c.deviate(what, 3)]
    } else {
        base
    };
    c.step();
    let before = jval(&t);
    let t = match guard(|| through(t, f)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(Violation { key: format!("transit:{}:unreadable", what), msg: format!("{} as {}: {}", what, FORMATS[f], e) }),
        Err(p) => return Err(Violation { key: format!("transit:{}:panic", what), msg: format!("{} as {}: panic: {}", what, FORMATS[f], p) }),
    };
    let after = jval(&t);
    if sorted(&before) != sorted(&after) {
        return Err(Violation { key: format!("transit:{}:changed", what), msg: format!("{} as {}: {} became {}", what, FORMATS[f], short(&before.to_string()), short(&after.to_string())) });
    }
    Ok(t)
}
/// Lists that stand for sets, in order.
fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut b: Vec<Value> = a.iter().map(sorted).collect();
            if b.iter().all(|x| x.is_string() || x.is_u64()) && b.len() < 16 {
                b.sort_by_key(|x| x.to_string());
            }
            Value::Array(b)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), sorted(x))).collect()),
        x => x.clone(),
    }
}
fn lib<T>(what: &str, r: U<T>) -> Result<T, Violation> {
    r.map_err(|e| Violation { key: format!("transit:{}:refused", what), msg: format!("{}: {}", what, e) })
}
/// The whole protocol; every object crosses every border in some format.
fn transit(f: &Fix, c: &mut Ctx) -> R {
    let base = c.choose("format", FORMATS.len());
    let rev = c.flag("revocation");
    let i = &f.w.i1;
    let kind = c.pick("name", &[Kind::Known, Kind::Commit]);
    let vals: Vals = std_vals(MS1, "28", NAME).into_iter().map(|(a, k, v)| if a == "name" { (a, kind, v) } else { (a, k, v) }).collect();
    let b = base;
    let schema = hop(c, b, "schema", schema_of(&i.attrs))?;
    let non = hop(c, b, "non-credential schema", non_schema_of(&i.hidden))?;
    let pk = hop(c, b, "public key", clone(&i.pk))?;
    let sk = hop(c, b, "private key", clone(&i.sk))?;
    let kcp = hop(c, b, "key proof", clone(&i.kcp))?;
    let hv = { c.step(); unj::<CredentialValues>(&vals_doc(&vals)).map_err(|e| Violation { key: "transit:values".into(), msg: e })? };
    let iv = if b == 0 { values(&known(&vals)) } else { unj::<CredentialValues>(&vals_doc(&known(&vals))).map_err(|e| Violation { key: "transit:values".into(), msg: e })? };
    let n1 = hop(c, b, "nonce 1", new_nonce().unwrap())?;
    let n2 = hop(c, b, "nonce 2", new_nonce().unwrap())?;
    let (bs, bf, bp) = lib("request", Prover::blind_credential_secrets(&pk, &kcp, &hv, &n1))?;
    let bs = hop(c, b, "blinded secrets", bs)?;
    let bf = hop(c, b, "blinding factors", bf)?;
    let bp = hop(c, b, "blinded secrets proof", bp)?;
    let nonce = hop(c, b, "nonce 3", new_nonce().unwrap())?;
    let q = req(&["sex"], &[("age", "GE", 18), ("age", "LT", 29)]);
    let preq: SubProofRequest = request(&q);
    let (mut sig, scp, held, mut later);
    if rev {
        let r = &f.regs[0];
        let pubk = hop(c, b, "revocation public key", clone(&r.pubk))?;
        let priv_ = hop(c, b, "revocation private key", clone(&r.priv_))?;
        let mut reg = hop(c, b, "registry", clone(&r.reg0))?;
        let x = lib("sign", Issuer::sign_credential_with_revoc(PROVER_ID, &bs, &bp, &n1, &n2, &iv, &pk, &sk, 2, r.max, r.by_default, &mut reg, &priv_, &r.tails))?;
        sig = x.0;
        scp = x.1;
        let reg0 = hop(c, b, "registry after signing", clone(&reg))?;
        let delta = lib("revoke", Issuer::revoke_credential(&mut reg, r.max, 1, &r.tails))?;
        let delta = hop(c, b, "delta", delta)?;
        let reg = hop(c, b, "registry after revoking", reg)?;
        let full = hop(c, b, "first delta", empty_delta(&reg0))?;
        let w = lib("witness", Witness::new(2, r.max, r.by_default, &full, &r.tails))?;
        let mut w = hop(c, b, "witness", w)?;
        held = Some((pubk, reg0, clone(&w)));
        lib("update", w.update(2, r.max, &delta, &r.tails))?;
        later = Some((reg, hop(c, b, "updated witness", w)?));
    } else {
        let x = lib("sign", Issuer::sign_credential(PROVER_ID, &bs, &bp, &n1, &n2, &iv, &pk, &sk))?;
        sig = x.0;
        scp = x.1;
        held = None;
        later = None;
    }
    sig = hop(c, b, "signature", sig)?;
    let scp = hop(c, b, "signature proof", scp)?;
    let h = held.as_ref();
    lib("process", Prover::process_credential_signature(&mut sig, &hv, &scp, &bf, &pk, &n2, h.map(|x| &x.0), h.map(|x| &x.1), h.map(|x| &x.2)))?;
    let sig = hop(c, b, "credential", sig)?;
    if kind == Kind::Commit {
        c.outcome("issued");
        return Ok(()); // what is committed to is not shown in presentations
    }
    let mut pb = Prover::new_proof_builder().unwrap();
    pb.add_common_attribute("master_secret").unwrap();
    let l = later.as_mut();
    let (reg, wit) = match &l {
        Some((a, b)) => (Some(a), Some(b)),
        None => (None, None),
    };
    lib("prove", pb.add_sub_proof_request(&preq, &schema, &non, &sig, &hv, &pk, reg, wit))?;
    let proof = lib("prove", pb.finalize(&nonce))?;
    let proof = hop(c, b, "proof", proof)?;
    let mut v = Verifier::new_proof_verifier().unwrap();
    v.add_common_attribute("master_secret").unwrap();
    lib("verify", v.add_sub_proof_request(&preq, &schema, &non, &pk, h.map(|x| &x.0), reg))?;
    expect(c, judge(|| v.verify(&proof, &nonce)), true, "transit:proof", || "the proof".into())
}

struct Doc {
    name: &'static str,
    doc: Value,
    parse: Box<dyn Fn(&Value) -> Result<Option<Value>, String> + Send + Sync>,
    used: Box<dyn Fn(&Value) + Send + Sync>,
}
fn reads<T: Serialize + DeserializeOwned>() -> Box<dyn Fn(&Value) -> Result<Option<Value>, String> + Send + Sync> {
    Box::new(|v| unj::<T>(v).map(|x| Some(jval(&x))))
}
fn docs(f: &Arc<Fix>) -> Vec<Doc> {
    let mut out: Vec<Doc> = vec![];
    let nonce = new_nonce().unwrap();
    let n1 = new_nonce().unwrap();
    let n2 = new_nonce().unwrap();
    let vals = std_vals(MS1, "28", NAME);
    let mut vals_c = vals.clone();
    vals_c[2].1 = Kind::Commit;
    let q = req(&["sex"], &[("age", "GE", 18)]);
    let hv = values(&vals_c);
    let i = &f.w.i1;
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &hv, &n1).unwrap();
    let mut reg = f.regs[0].reg0.clone();
    let r = &f.regs[0];
    let (sig, scp, _) = Issuer::sign_credential_with_revoc(
        PROVER_ID, &bs, &bp, &n1, &n2, &values(&known(&vals_c)), &i.pk, &i.sk, 2, r.max, r.by_default, &mut reg, &r.priv_, &r.tails,
    ).unwrap();
    let delta = {
        let mut reg = reg.clone();
        let mut d = Issuer::revoke_credential(&mut reg, r.max, 1, &r.tails).unwrap();
        let e = Issuer::revoke_credential(&mut reg, r.max, 3, &r.tails).unwrap();
        d.merge(&e).unwrap();
        d
    };
    let base = Arc::new((jval(&bs), jval(&bf), jval(&bp), jval(&sig), jval(&scp), jval(&reg), jval(&n1), jval(&n2), vals_c));
    let proof = prove(&[Part { iss: i, cred: &f.a, req: q.clone(), rev: Some((&f.reg, &f.wit)) }], &["master_secret"], &nonce).unwrap();
    let (pj, nj) = (jval(&proof), jval(&nonce));
    // verification with one thing replaced
    let verified = {
        let (f, q) = (f.clone(), q.clone());
        Arc::new(move |k: &str, v: &Value| -> Option<bool> {
            let i = &f.w.i1;
            macro_rules! part {
                ($name:expr, $t:ty, $honest:expr) => {
                    if k == $name { unj::<$t>(v).ok()? } else { $honest }
                };
            }
            let pk = part!("public key", CredentialPublicKey, clone(&i.pk));
            let schema = part!("schema", CredentialSchema, schema_of(&i.attrs));
            let non = part!("non-credential schema", NonCredentialSchema, non_schema_of(&i.hidden));
            let reg = part!("registry", RevocationRegistry, clone(&f.reg));
            let pubk = part!("revocation public key", RevocationKeyPublic, clone(&f.regs[0].pubk));
            let proof = part!("proof", Proof, unj(&pj).unwrap());
            let nonce = part!("nonce", Nonce, unj(&nj).unwrap());
            let preq = part!("request", SubProofRequest, request(&q));
            let mut p = Verifier::new_proof_verifier().ok()?;
            p.add_common_attribute("master_secret").ok()?;
            p.add_sub_proof_request(&preq, &schema, &non, &pk, Some(&pubk), Some(&reg)).ok()?;
            p.verify(&proof, &nonce).ok()
        })
    };
    // presenting with one thing replaced
    let presented = {
        let f = f.clone();
        Arc::new(move |k: &str, v: &Value| -> Option<Proof> {
            let i = &f.w.i1;
            macro_rules! part {
                ($name:expr, $t:ty, $honest:expr) => {
                    if k == $name { unj::<$t>(v).ok()? } else { $honest }
                };
            }
            let pk = part!("public key", CredentialPublicKey, clone(&i.pk));
            let schema = part!("schema", CredentialSchema, schema_of(&i.attrs));
            let non = part!("non-credential schema", NonCredentialSchema, non_schema_of(&i.hidden));
            let reg = part!("registry", RevocationRegistry, clone(&f.reg));
            let wit = part!("witness", Witness, clone(&f.wit));
            let sig = part!("signature", CredentialSignature, clone(&f.a.sig));
            let vals = part!("values", CredentialValues, f.a.values());
            let nonce = part!("nonce", Nonce, new_nonce().unwrap());
            let preq = part!("request", SubProofRequest, request(&q));
            let mut b = Prover::new_proof_builder().ok()?;
            b.add_common_attribute("master_secret").ok()?;
            b.add_sub_proof_request(&preq, &schema, &non, &sig, &vals, &pk, Some(&reg), Some(&wit)).ok()?;
            b.finalize(&nonce).ok()
        })
    };
    // issuing with one thing replaced
    let issued = {
        let (f, base) = (f.clone(), base.clone());
        Arc::new(move |k: &str, v: &Value| -> Option<()> {
            let i = &f.w.i1;
            let r = &f.regs[0];
            macro_rules! part {
                ($name:expr, $t:ty, $honest:expr) => {
                    if k == $name { unj::<$t>(v).ok()? } else { $honest }
                };
            }
            let pk = part!("public key", CredentialPublicKey, clone(&i.pk));
            let sk = part!("private key", CredentialPrivateKey, clone(&i.sk));
            let kcp = part!("key proof", CredentialKeyCorrectnessProof, clone(&i.kcp));
            let hv = part!("values", CredentialValues, values(&base.8));
            let n1 = part!("nonce", Nonce, unj(&base.6).unwrap());
            let n2: Nonce = unj(&base.7).unwrap();
            if ["public key", "key proof", "values", "nonce"].contains(&k) {
                let _ = Prover::blind_credential_secrets(&pk, &kcp, &hv, &n1);
            }
            let bs = part!("blinded secrets", BlindedCredentialSecrets, unj(&base.0).unwrap());
            let bp = part!("blinded secrets proof", BlindedCredentialSecretsCorrectnessProof, unj(&base.2).unwrap());
            let priv_ = part!("revocation private key", RevocationKeyPrivate, clone(&r.priv_));
            let mut reg = part!("registry", RevocationRegistry, r.reg0.clone());
            let iv = if k == "values" { unj(v).ok()? } else { values(&known(&base.8)) };
            if ["public key", "private key", "values", "nonce", "blinded secrets", "blinded secrets proof", "revocation private key", "registry"].contains(&k) {
                let _ = Issuer::sign_credential_with_revoc(PROVER_ID, &bs, &bp, &n1, &n2, &iv, &pk, &sk, 2, r.max, r.by_default, &mut reg, &priv_, &r.tails);
                let _ = Issuer::sign_credential(PROVER_ID, &bs, &bp, &n1, &n2, &iv, &pk, &sk);
            }
            let mut sig = part!("signature", CredentialSignature, unj(&base.3).unwrap());
            let scp = part!("signature proof", SignatureCorrectnessProof, unj(&base.4).unwrap());
            let bf = part!("blinding factors", CredentialSecretsBlindingFactors, unj(&base.1).unwrap());
            let wit = part!("witness", Witness, clone(&f.wit));
            let pubk = part!("revocation public key", RevocationKeyPublic, clone(&r.pubk));
            let reg: RevocationRegistry = part!("registry", RevocationRegistry, unj(&base.5).unwrap());
            let _ = Prover::process_credential_signature(&mut sig, &hv, &scp, &bf, &pk, &n2, Some(&pubk), Some(&reg), Some(&wit));
            Some(())
        })
    };
    let kept = {
        let f = f.clone();
        let dj = jval(&delta);
        Arc::new(move |k: &str, v: &Value| -> Option<()> {
            let r = &f.regs[0];
            let one = |d: &RevocationRegistryDelta, w: &Witness| {
                let mut w = w.clone();
                let _ = w.update(2, r.max, d, &r.tails);
                let _ = Witness::new(2, r.max, true, d, &r.tails);
                let _ = Witness::new(2, r.max, false, d, &r.tails);
                let mut e: RevocationRegistryDelta = unj(&dj).unwrap();
                let _ = e.merge(d);
                let mut e = d.clone();
                let _ = e.merge(&unj(&dj).unwrap());
                let _ = RevocationRegistry::from(d.clone());
            };
            match k {
                "delta" => one(&unj(v).ok()?, &f.wit),
                "witness" => one(&unj(&dj).unwrap(), &unj(v).ok()?),
                "registry" => {
                    let mut reg: RevocationRegistry = unj(v).ok()?;
                    let _ = RevocationRegistryDelta::from_parts(Some(&f.reg), &reg, &HashSet::new(), &HashSet::new());
                    let _ = Issuer::revoke_credential(&mut reg, r.max, 1, &r.tails);
                    let _ = Issuer::recovery_credential(&mut reg, r.max, 1, &r.tails);
                    let _ = Issuer::update_revocation_registry(&mut reg, r.max, BTreeSet::new(), vec![2].into_iter().collect(), &r.tails);
                }
                _ => (),
            }
            Some(())
        })
    };
    let all = move |k: &'static str| -> Box<dyn Fn(&Value) + Send + Sync> {
        let (a, b, c, d) = (verified.clone(), presented.clone(), issued.clone(), kept.clone());
        Box::new(move |v| {
            if ["public key", "schema", "non-credential schema", "registry", "revocation public key", "proof", "nonce", "request"].contains(&k) {
                a(k, v);
            }
            if ["public key", "schema", "non-credential schema", "registry", "witness", "signature", "values", "nonce", "request"].contains(&k) {
                b(k, v);
            }
            if !["proof", "schema", "non-credential schema", "request", "delta"].contains(&k) {
                c(k, v);
            }
            d(k, v);
        })
    };
    macro_rules! d {
        ($name:expr, $t:ty, $doc:expr) => {
            out.push(Doc { name: $name, doc: $doc, parse: reads::<$t>(), used: all($name) });
        };
    }
    d!("schema", CredentialSchema, jval(&i.schema));
    d!("non-credential schema", NonCredentialSchema, jval(&i.non));
    d!("public key", CredentialPublicKey, jval(&i.pk));
    d!("private key", CredentialPrivateKey, jval(&i.sk));
    d!("key proof", CredentialKeyCorrectnessProof, jval(&i.kcp));
    out.push(Doc {
        name: "values",
        doc: vals_doc(&base.8),
        parse: Box::new(|v| unj::<CredentialValues>(v).map(|_| None)),
        used: all("values"),
    });
    d!("blinded secrets", BlindedCredentialSecrets, base.0.clone());
    d!("blinding factors", CredentialSecretsBlindingFactors, base.1.clone());
    d!("blinded secrets proof", BlindedCredentialSecretsCorrectnessProof, base.2.clone());
    d!("signature", CredentialSignature, base.3.clone());
    d!("signature proof", SignatureCorrectnessProof, base.4.clone());
    d!("nonce", Nonce, base.6.clone());
    d!("master secret", MasterSecret, jval(&Prover::new_master_secret().unwrap()));
    d!("revocation public key", RevocationKeyPublic, jval(&r.pubk));
    d!("revocation private key", RevocationKeyPrivate, jval(&r.priv_));
    d!("registry", RevocationRegistry, jval(&reg));
    d!("delta", RevocationRegistryDelta, jval(&delta));
    d!("witness", Witness, jval(&f.wit));
    d!("proof", Proof, jval(&proof));
    out.push(Doc {
        name: "request",
        doc: json!({"revealed_attrs": ["sex"], "predicates": [{"attr_name": "age", "p_type": "GE", "value": 18}]}),
        parse: Box::new(|v| unj::<SubProofRequest>(v).map(|_| None)),
        used: all("request"),
    });
    out
}
/// Credential values are only read, never written.
fn vals_doc(v: &Vals) -> Value {
    let mut o = json!({});
    for (a, k, d) in v {
        o[*a] = match k {
            Kind::Known => json!({"Known": {"value": d}}),
            Kind::Hidden => json!({"Hidden": {"value": d}}),
            Kind::Commit => json!({"Commitment": {"value": d, "blinding_factor": "123456789012345678901234567890"}}),
        };
    }
    json!({"attrs_values": o})
}
/// What may stand in the place of a leaf.
fn bad(v: &Value) -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    for x in vec![json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(1u64 << 40), json!([]), json!({}), json!("")] {
        out.push((format!("{}", x), x));
    }
    for s in &[" ", "-", "+1", "0x10", "12 34", "1e5", "ten", "\u{0663}", "1\u{0}2", "NaN", "-0", "00", "0", "1", "-1", "\u{20ac}", "GE"] {
        out.push((format!("{:?}", s), json!(s)));
    }
    if let Value::String(s) = v {
        let n = s.len();
        out.push(("lower case".into(), json!(s.to_lowercase())));
        out.push(("spaces around".into(), json!(format!(" {} ", s))));
        out.push(("twice".into(), json!(format!("{}{}", s, s))));
        out.push(("line end".into(), json!(format!("{}\n", s))));
        out.push(("negative".into(), json!(format!("-{}", s))));
        out.push(("many digits".into(), json!("9".repeat(2000))));
        if s.is_ascii() && n > 1 {
            out.push(("cut".into(), json!(s[..n - 1])));
            out.push(("cut in front".into(), json!(s[1..])));
            out.push(("letter inside".into(), json!(format!("{}g{}", &s[..n / 2], &s[n / 2 + 1..]))));
            out.push(("euro inside".into(), json!(format!("{}\u{20ac}{}", &s[..n / 2], &s[n / 2 + 1..]))));
        }
        let words: Vec<&str> = s.split(' ').collect();
        if words.len() > 2 {
            for k in 0..words.len() {
                let mut w = words.clone();
                w.remove(k);
                out.push((format!("without word {}", k), json!(w.join(" "))));
                let mut w = words.clone();
                w[k] = "0";
                out.push((format!("word {} zero", k), json!(w.join(" "))));
                let mut w = words.clone();
                let long = "F".repeat(200);
                w[k] = &long;
                out.push((format!("word {} long", k), json!(w.join(" "))));
            }
            out.push(("more words".into(), json!(format!("{} {}", s, s))));
            out.push(("all zero".into(), json!(words.iter().map(|w| "0".repeat(w.len())).collect::<Vec<_>>().join(" "))));
        }
    }
    if v.is_u64() {
        for x in vec![json!(255), json!(256), json!(4294967295u64), json!(4294967296u64), json!(u64::max_value()), json!(i64::min_value())] {
            out.push((x.to_string(), x));
        }
    }
    out.retain(|x| &x.1 != v);
    out
}
/// Every malformed variant of every document.
fn malformed_docs(d: &Doc) -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut lists: BTreeSet<String> = BTreeSet::new();
    for p in jsonmut::leaves(&d.doc) {
        // of byte strings and lists of numbers, the first element
        let at = p.rfind('/').map(|k| (p[..k].to_string(), p[k + 1..].to_string()));
        if let Some((list, k)) = at {
            if jsonmut::get(&d.doc, &list).as_array().map(|a| a.len() > 16).unwrap_or(false) && (k != "0" || !lists.insert(list)) {
                continue;
            }
        }
        for (m, x) in bad(jsonmut::get(&d.doc, &p)) {
            out.push((format!("{} {}", p, m), jsonmut::with(&d.doc, &p, x)));
        }
        if !p.is_empty() {
            out.push((format!("{} removed", p), jsonmut::without(&d.doc, &p)));
        }
    }
    for p in jsonmut::containers(&d.doc) {
        for x in vec![json!(null), json!([]), json!({}), json!(0), json!("x"), json!([[]]), json!({"a": 1}), json!([null])] {
            out.push((format!("{} {}", p, x), if p.is_empty() { x.clone() } else { jsonmut::with(&d.doc, &p, x) }));
        }
        if !p.is_empty() {
            out.push((format!("{} removed", p), jsonmut::without(&d.doc, &p)));
        }
        let v = jsonmut::get(&d.doc, &p).clone();
        if let Value::Object(mut o) = v {
            o.insert("unknown".into(), json!("1"));
            out.push((format!("{} with an unknown field", p), jsonmut::with(&d.doc, &p, Value::Object(o))));
        }
    }
    out
}
fn malformed(docs: &[Doc], all: &[Vec<(String, Value)>], c: &mut Ctx) -> R {
    let k = c.choose("document", docs.len());
    let d = &docs[k];
    let part = c.choose("part", 40);
    let from = all[k].len() * part / 40;
    let to = all[k].len() * (part + 1) / 40;
    c.state(&(k, part));
    for (name, v) in &all[k][from..to] {
        c.eval(1);
        let what = || format!("{}: {}", d.name, name);
        let out = match guard(|| (d.parse)(v)) {
            Ok(x) => x,
            Err(p) => {
                c.soft(format!("{}:parse:panic", d.name), format!("{}: panic: {}", what(), p));
                continue;
            }
        };
        match out {
            Err(_) => c.outcome("unreadable"),
            Ok(printed) => {
                if let Some(p) = printed {
                    // what was read reads the same again
                    match guard(|| (d.parse)(&p)) {
                        Ok(Ok(Some(q))) => {
                            if sorted(&q) != sorted(&p) {
                                c.soft(format!("{}:unstable", d.name), format!("{}: read as {}, then as {}", what(), short(&p.to_string()), short(&q.to_string())));
                            }
                        }
                        Ok(Err(e)) => c.soft(format!("{}:unreadable", d.name), format!("{}: accepted, but what it is written as is not readable: {}", what(), e)),
                        Ok(Ok(None)) => (),
                        Err(p) => c.soft(format!("{}:parse:panic", d.name), format!("{}: panic: {}", what(), p)),
                    }
                }
                c.outcome("read");
                if let Err(p) = guard(|| (d.used)(v)) {
                    c.soft(format!("{}:use:panic", d.name), format!("{}: used: panic: {}", what(), p));
                }
            }
        }
    }
    Ok(())
}

/// Documents of version 1 and those written when this check was made.
pub fn print_golden() {
    let f = fix();
    let nonce = new_nonce().unwrap();
    let q = req(&["sex"], &[("age", "GE", 18), ("age", "LT", 29)]);
    let proof = prove(&[Part { iss: &f.w.i1, cred: &f.a, req: q, rev: Some((&f.reg, &f.wit)) }], &["master_secret"], &nonce).unwrap();
    let r = &f.regs[0];
    let mut reg = f.reg.clone();
    let delta = Issuer::revoke_credential(&mut reg, r.max, 1, &r.tails).unwrap();
    let g = json!({
        "CredentialSchema": jval(&f.w.i1.schema), "NonCredentialSchema": jval(&f.w.i1.non),
        "CredentialPublicKey": jval(&f.w.i1.pk), "CredentialPrivateKey": jval(&f.w.i1.sk), "CredentialKeyCorrectnessProof": jval(&f.w.i1.kcp),
        "RevocationKeyPublic": jval(&r.pubk), "RevocationKeyPrivate": jval(&r.priv_), "RevocationRegistry": jval(&f.reg),
        "RevocationRegistryDelta": jval(&delta), "RegistryAfter": jval(&reg),
        "CredentialValues": vals_doc(&f.a.vals), "CredentialSignature": jval(&f.a.sig), "Witness": jval(&f.wit),
        "Nonce": jval(&nonce), "Proof": jval(&proof),
        "SubProofRequest": {"revealed_attrs": ["sex"], "predicates": [{"attr_name": "age", "p_type": "GE", "value": 18}, {"attr_name": "age", "p_type": "LT", "value": 29}]},
    });
    println!("{}", serde_json::to_string(&g).unwrap());
}
fn golden(g: &Value, f: &Fix, c: &mut Ctx) -> R {
    let v1 = c.choose("version", 2) == 1;
    let mut g = g.clone();
    if v1 {
        // the base and the response of the master secret were fields of their own
        let r = g["CredentialPublicKey"]["p_key"]["r"].as_object_mut().unwrap().remove("master_secret").unwrap();
        g["CredentialPublicKey"]["p_key"]["rms"] = r;
        let m = g["Proof"]["proofs"][0]["primary_proof"]["eq_proof"]["m"].as_object_mut().unwrap().remove("master_secret").unwrap();
        g["Proof"]["proofs"][0]["primary_proof"]["eq_proof"]["m1"] = m;
    }
    macro_rules! read {
        ($t:ty, $k:expr) => {{
            c.step();
            let v: $t = unj(&g[$k]).map_err(|e| Violation { key: format!("golden:{}", $k), msg: format!("a stored {} (version 1: {}) is not readable: {}", $k, v1, e) })?;
            v
        }};
    }
    macro_rules! same {
        ($t:ty, $k:expr) => {{
            let v = read!($t, $k);
            c.ensure(v1 || sorted(&jval(&v)) == sorted(&g[$k]), &format!("golden:{}", $k), || format!("a stored {} is written otherwise now: {}", $k, short(&jval(&v).to_string())))?;
            v
        }};
    }
    let schema = same!(CredentialSchema, "CredentialSchema");
    let non = same!(NonCredentialSchema, "NonCredentialSchema");
    let pk = same!(CredentialPublicKey, "CredentialPublicKey");
    let sk = same!(CredentialPrivateKey, "CredentialPrivateKey");
    let kcp = same!(CredentialKeyCorrectnessProof, "CredentialKeyCorrectnessProof");
    let pubk = same!(RevocationKeyPublic, "RevocationKeyPublic");
    let priv_ = same!(RevocationKeyPrivate, "RevocationKeyPrivate");
    let reg = same!(RevocationRegistry, "RevocationRegistry");
    let after = same!(RevocationRegistry, "RegistryAfter");
    let delta = same!(RevocationRegistryDelta, "RevocationRegistryDelta");
    let vals = read!(CredentialValues, "CredentialValues");
    let sig = same!(CredentialSignature, "CredentialSignature");
    let wit = same!(Witness, "Witness");
    let nonce = same!(Nonce, "Nonce");
    let proof = same!(Proof, "Proof");
    let preq = read!(SubProofRequest, "SubProofRequest");
    let verify = |p: &Proof, reg: &RevocationRegistry| {
        judge(|| {
            let mut v = Verifier::new_proof_verifier()?;
            v.add_common_attribute("master_secret")?;
            v.add_sub_proof_request(&preq, &schema, &non, &pk, Some(&pubk), Some(reg))?;
            v.verify(p, &nonce)
        })
    };
    expect(c, verify(&proof, &reg), true, "golden:proof", || format!("the stored proof (version 1: {})", v1))?;
    expect(c, verify(&proof, &after), false, "golden:proof-after", || "the stored proof, later registry".into())?;
    // the stored credential and witness, brought up to date, present
    let tails = &f.regs[0].tails;
    let _ = tails;
    let mut b = Prover::new_proof_builder().unwrap();
    b.add_common_attribute("master_secret").unwrap();
    let v = judge(|| {
        b.add_sub_proof_request(&preq, &schema, &non, &sig, &vals, &pk, Some(&reg), Some(&wit))?;
        let p = b.finalize(&nonce)?;
        let mut v = Verifier::new_proof_verifier()?;
        v.add_common_attribute("master_secret")?;
        v.add_sub_proof_request(&preq, &schema, &non, &pk, Some(&pubk), Some(&reg))?;
        v.verify(&p, &nonce)
    });
    expect(c, v, true, "golden:credential", || "the stored credential".into())?;
    // the stored keys issue; the delta leads from the one registry to the other
    let v = judge(|| {
        let n1 = new_nonce()?;
        let (bs, bf, bp) = Prover::blind_credential_secrets(&pk, &kcp, &vals, &n1)?;
        let iv = values(&known(&std_vals(MS1, "28", NAME)));
        let (mut s, scp) = Issuer::sign_credential(PROVER_ID, &bs, &bp, &n1, &nonce, &iv, &pk, &sk)?;
        Prover::process_credential_signature(&mut s, &vals, &scp, &bf, &pk, &nonce, None, None, None)?;
        Ok(true)
    });
    expect(c, v, true, "golden:issue", || "the stored keys".into())?;
    c.step();
    let d = RevocationRegistryDelta::from_parts(Some(&reg), &after, &HashSet::new(), &vec![1].into_iter().collect());
    c.ensure(jval(&d) == jval(&delta), "golden:delta", || "the stored delta is not that of the stored registries".into())?;
    let _ = priv_;
    Ok(())
}

pub fn build(_t: Tier) -> Check {
    let f = fix();
    let ds = docs(&f);
    let all: Vec<Vec<(String, Value)>> = ds.iter().map(malformed_docs).collect();
    let total: usize = all.iter().map(|x| x.len()).sum();
    let g: Value = serde_json::from_str(include_str!("../golden.json")).expect("golden.json");
    let (f1, f2) = (f.clone(), f);
    Check {
        rule: "An execution is one run of the whole protocol with every object written and read at every border in one format (one deviating hop), or one part of the malformed variants of one document (each read, written, read again and used), or the use of documents stored before.".into(),
        assumptions: vec!["2048-bit keys from fixed seeds".into()],
        scenarios: vec![
            Scenario::new("transit", "5 formats x revocation x committed attribute x up to 1 hop in another format", move |c| transit(&f1, c)).dev(1),
            Scenario::new("malformed", &format!("{} malformed variants of 20 documents, read and used", total), move |c| malformed(&ds, &all, c)),
            Scenario::new("stored", "documents written before, in the current form and in that of version 1", move |c| golden(&g, &f2, c)),
        ],
    }
}
