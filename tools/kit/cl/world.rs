#![allow(dead_code)]
//! Fixtures and helpers: issuers, holders, credentials and registries built with the real library.
use serde_json::Value;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::errors::UrsaCryptoError;

pub type U<T> = Result<T, UrsaCryptoError>;

pub fn bn(s: &str) -> BigNumber {
    BigNumber::from_dec(s).expect("dec")
}
pub fn jval<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("to json")
}
pub fn unj<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}
pub fn clone<T: Serialize + DeserializeOwned>(t: &T) -> T {
    unj(&jval(t)).expect("json round trip")
}

pub struct Iss {
    pub attrs: Vec<&'static str>,
    pub hidden: Vec<&'static str>,
    pub schema: CredentialSchema,
    pub non: NonCredentialSchema,
    pub pk: CredentialPublicKey,
    pub sk: CredentialPrivateKey,
    pub kcp: CredentialKeyCorrectnessProof,
}

pub fn schema_of(attrs: &[&str]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    b.finalize().unwrap()
}
pub fn non_schema_of(attrs: &[&str]) -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    b.finalize().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Known,
    Hidden,
    Commit,
}
pub type Vals = Vec<(&'static str, Kind, String)>;
pub fn values(v: &Vals) -> CredentialValues {
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (a, k, d) in v {
        match k {
            Kind::Known => b.add_dec_known(a, d).unwrap(),
            Kind::Hidden => b.add_dec_hidden(a, d).unwrap(),
            Kind::Commit => b.add_dec_commitment(a, d, "123456789012345678901234567890").unwrap(),
        }
    }
    b.finalize().unwrap()
}
/// The values the issuer may see: the known ones only.
pub fn known(v: &Vals) -> Vals {
    v.iter().filter(|(_, k, _)| *k == Kind::Known).cloned().collect()
}

pub struct Reg {
    pub pubk: RevocationKeyPublic,
    pub priv_: RevocationKeyPrivate,
    pub reg0: RevocationRegistry,
    pub tails: SimpleTailsAccessor,
    pub max: u32,
    pub by_default: bool,
}
pub fn new_registry(pk: &CredentialPublicKey, max: u32, by_default: bool) -> Reg {
    let (pubk, priv_, reg0, mut gen) =
        Issuer::new_revocation_registry_def(pk, max, by_default).expect("new_revocation_registry_def");
    let tails = SimpleTailsAccessor::new(&mut gen).expect("tails");
    Reg { pubk, priv_, reg0, tails, max, by_default }
}

pub struct Cred {
    pub sig: CredentialSignature,
    pub vals: Vals,
}
impl Cred {
    pub fn clone(&self) -> Cred {
        Cred { sig: clone(&self.sig), vals: self.vals.clone() }
    }
    pub fn values(&self) -> CredentialValues {
        values(&self.vals)
    }
}

pub const PROVER_ID: &str = "CnEDk9HrMnmiHXEV1WFgbVCRteYnPqsJwrTdcZaNhFVW";

pub fn issue(i: &Iss, vals: &Vals, prover_id: &str) -> U<Cred> {
    let hv = values(vals);
    let n1 = new_nonce()?;
    let n2 = new_nonce()?;
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &hv, &n1)?;
    let (mut sig, scp) =
        Issuer::sign_credential(prover_id, &bs, &bp, &n1, &n2, &values(&known(vals)), &i.pk, &i.sk)?;
    Prover::process_credential_signature(&mut sig, &hv, &scp, &bf, &i.pk, &n2, None, None, None)?;
    Ok(Cred { sig, vals: vals.clone() })
}

/// Issues with revocation; returns the credential, the witness at issue time and the delta.
pub fn issue_rev(
    i: &Iss,
    vals: &Vals,
    prover_id: &str,
    r: &Reg,
    reg: &mut RevocationRegistry,
    idx: u32,
    full: &RevocationRegistryDelta,
) -> U<(Cred, Witness, Option<RevocationRegistryDelta>)> {
    let hv = values(vals);
    let n1 = new_nonce()?;
    let n2 = new_nonce()?;
    let (bs, bf, bp) = Prover::blind_credential_secrets(&i.pk, &i.kcp, &hv, &n1)?;
    let (mut sig, scp, delta) = Issuer::sign_credential_with_revoc(
        prover_id, &bs, &bp, &n1, &n2, &values(&known(vals)), &i.pk, &i.sk, idx, r.max, r.by_default, reg, &r.priv_, &r.tails,
    )?;
    let mut total = full.clone();
    if let Some(d) = &delta {
        total.merge(d)?;
    }
    let w = Witness::new(idx, r.max, r.by_default, &total, &r.tails)?;
    Prover::process_credential_signature(&mut sig, &hv, &scp, &bf, &i.pk, &n2, Some(&r.pubk), Some(reg), Some(&w))?;
    Ok((Cred { sig, vals: vals.clone() }, w, delta))
}

/// The delta from the registry's creation to its creation state: nothing issued, nothing revoked.
pub fn empty_delta(reg: &RevocationRegistry) -> RevocationRegistryDelta {
    RevocationRegistryDelta::from_parts(None, reg, &HashSet::new(), &HashSet::new())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Req {
    pub revealed: BTreeSet<&'static str>,
    pub preds: Vec<(&'static str, &'static str, i32)>,
}
pub fn request(r: &Req) -> SubProofRequest {
    let mut b = Verifier::new_sub_proof_request_builder().unwrap();
    for a in &r.revealed {
        b.add_revealed_attr(a).unwrap();
    }
    for (a, t, v) in &r.preds {
        b.add_predicate(a, t, *v).unwrap();
    }
    b.finalize().unwrap()
}
pub fn req(revealed: &[&'static str], preds: &[(&'static str, &'static str, i32)]) -> Req {
    Req { revealed: revealed.iter().cloned().collect(), preds: preds.to_vec() }
}

/// One sub-proof: what the prover puts in.
pub struct Part<'a> {
    pub iss: &'a Iss,
    pub cred: &'a Cred,
    pub req: Req,
    pub rev: Option<(&'a RevocationRegistry, &'a Witness)>,
}
pub fn prove(parts: &[Part], common: &[&str], nonce: &Nonce) -> U<Proof> {
    let mut b = Prover::new_proof_builder()?;
    for c in common {
        b.add_common_attribute(c)?;
    }
    for p in parts {
        b.add_sub_proof_request(
            &request(&p.req),
            &p.iss.schema,
            &p.iss.non,
            &p.cred.sig,
            &p.cred.values(),
            &p.iss.pk,
            p.rev.map(|x| x.0),
            p.rev.map(|x| x.1),
        )?;
    }
    b.finalize(nonce)
}
/// One sub-proof: what the verifier expects.
pub struct Want<'a> {
    pub pk: &'a CredentialPublicKey,
    pub schema: &'a CredentialSchema,
    pub non: &'a NonCredentialSchema,
    pub req: Req,
    pub rev: Option<(&'a RevocationKeyPublic, &'a RevocationRegistry)>,
}
impl<'a> Want<'a> {
    pub fn of(i: &'a Iss, r: &Req) -> Want<'a> {
        Want { pk: &i.pk, schema: &i.schema, non: &i.non, req: r.clone(), rev: None }
    }
    pub fn rev(mut self, k: &'a RevocationKeyPublic, r: &'a RevocationRegistry) -> Want<'a> {
        self.rev = Some((k, r));
        self
    }
}
pub fn verifier(wants: &[Want], common: &[&str]) -> U<ursa::cl::verifier::ProofVerifier> {
    let mut v = Verifier::new_proof_verifier()?;
    for c in common {
        v.add_common_attribute(c)?;
    }
    for w in wants {
        v.add_sub_proof_request(&request(&w.req), w.schema, w.non, w.pk, w.rev.map(|x| x.0), w.rev.map(|x| x.1))?;
    }
    Ok(v)
}
/// The verdict: Ok(true) accepted; Ok(false) or an error: refused.
pub fn verify(proof: &Proof, wants: &[Want], common: &[&str], nonce: &Nonce) -> U<bool> {
    verifier(wants, common)?.verify(proof, nonce)
}
pub fn std_vals(ms: &str, age: &str, name: &str) -> Vals {
    vec![
        ("master_secret", Kind::Hidden, ms.to_string()),
        ("age", Kind::Known, age.to_string()),
        ("name", Kind::Known, name.to_string()),
        ("sex", Kind::Known, "5944657099558967239210949258394887428692050081607692519917050011144233115103".to_string()),
    ]
}
pub fn vals2(ms: &str, age: &str, status: &str) -> Vals {
    vec![
        ("master_secret", Kind::Hidden, ms.to_string()),
        ("age", Kind::Known, age.to_string()),
        ("status", Kind::Known, status.to_string()),
    ]
}
pub const MS1: &str = "21578029250517794450984707538122537192839006240802068037273983354680998203845";
pub const MS2: &str = "9578029250517794450984707538122537192839006240802068037273983354680998203817";
pub const NAME: &str = "1139481716457488690172217916278103335";
pub const MAX256: &str = "115792089237316195423570985008687907853269984665640564039457584007913129639935";

pub struct World {
    pub i1: Iss,
    pub i2: Iss,
}
pub fn world() -> Arc<World> {
    Arc::new(World {
        i1: new_issuer(677, &["age", "name", "sex"], &["master_secret"], true),
        i2: new_issuer(783, &["age", "status"], &["master_secret"], false),
    })
}
pub fn new_issuer(seed: u64, attrs: &[&'static str], hidden: &[&'static str], _rev: bool) -> Iss {
    let k: Value = serde_json::from_str(include_str!("keys.json")).unwrap();
    let k = &k[&seed.to_string()];
    Iss {
        attrs: attrs.to_vec(),
        hidden: hidden.to_vec(),
        schema: schema_of(attrs),
        non: non_schema_of(hidden),
        pk: unj(&k["pk"]).unwrap(),
        sk: unj(&k["sk"]).unwrap(),
        kcp: unj(&k["kcp"]).unwrap(),
    }
}
