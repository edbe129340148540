//! F01: anonymous credentials through the C API do what they do through the Rust API.
use crate::abi::*;
use crate::world::*;
use mc::*;
use std::collections::HashSet;
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::errors::prelude::*;
use ursa::ffi::cl as fc;
use ursa::ffi::cl::issuer as fi;
use ursa::ffi::cl::prover as fp;
use ursa::ffi::cl::verifier as fv;
use ursa::ffi::ErrorCode;

macro_rules! docs { ($($id:ident : $t:ty, $m:ident, $to:ident, $from:ident, $free:ident;)*) => {
    $(pub fn $id() -> Doc {
        fn rust(t: &str) -> Result<Value, String> { serde_json::from_str::<$t>(t).map(|x| jval(&x)).map_err(|e| e.to_string()) }
        Doc { name: stringify!($id), to: $m::$to as usize, from: $m::$from as usize, free: $m::$free as usize, rust }
    })*
    pub fn all_docs() -> Vec<Doc> { vec![$($id()),*] }
} }
docs! {
    d_pk: CredentialPublicKey, fi, ursa_cl_credential_public_key_to_json, ursa_cl_credential_public_key_from_json, ursa_cl_credential_public_key_free;
    d_sk: CredentialPrivateKey, fi, ursa_cl_credential_private_key_to_json, ursa_cl_credential_private_key_from_json, ursa_cl_credential_private_key_free;
    d_kcp: CredentialKeyCorrectnessProof, fi, ursa_cl_credential_key_correctness_proof_to_json, ursa_cl_credential_key_correctness_proof_from_json, ursa_cl_credential_key_correctness_proof_free;
    d_rkp: RevocationKeyPublic, fi, ursa_cl_revocation_key_public_to_json, ursa_cl_revocation_key_public_from_json, ursa_cl_revocation_key_public_free;
    d_rks: RevocationKeyPrivate, fi, ursa_cl_revocation_key_private_to_json, ursa_cl_revocation_key_private_from_json, ursa_cl_revocation_key_private_free;
    d_reg: RevocationRegistry, fi, ursa_cl_revocation_registry_to_json, ursa_cl_revocation_registry_from_json, ursa_cl_revocation_registry_free;
    d_gen: RevocationTailsGenerator, fi, ursa_cl_revocation_tails_generator_to_json, ursa_cl_revocation_tails_generator_from_json, ursa_cl_revocation_tails_generator_free;
    d_sig: CredentialSignature, fi, ursa_cl_credential_signature_to_json, ursa_cl_credential_signature_from_json, ursa_cl_credential_signature_free;
    d_scp: SignatureCorrectnessProof, fi, ursa_cl_signature_correctness_proof_to_json, ursa_cl_signature_correctness_proof_from_json, ursa_cl_signature_correctness_proof_free;
    d_delta: RevocationRegistryDelta, fi, ursa_cl_revocation_registry_delta_to_json, ursa_cl_revocation_registry_delta_from_json, ursa_cl_revocation_registry_delta_free;
    d_ms: MasterSecret, fp, ursa_cl_master_secret_to_json, ursa_cl_master_secret_from_json, ursa_cl_master_secret_free;
    d_bs: BlindedCredentialSecrets, fp, ursa_cl_blinded_credential_secrets_to_json, ursa_cl_blinded_credential_secrets_from_json, ursa_cl_blinded_credential_secrets_free;
    d_bf: CredentialSecretsBlindingFactors, fp, ursa_cl_credential_secrets_blinding_factors_to_json, ursa_cl_credential_secrets_blinding_factors_from_json, ursa_cl_credential_secrets_blinding_factors_free;
    d_bp: BlindedCredentialSecretsCorrectnessProof, fp, ursa_cl_blinded_credential_secrets_correctness_proof_to_json, ursa_cl_blinded_credential_secrets_correctness_proof_from_json, ursa_cl_blinded_credential_secrets_correctness_proof_free;
    d_proof: Proof, fp, ursa_cl_proof_to_json, ursa_cl_proof_from_json, ursa_cl_proof_free;
    d_nonce: Nonce, fc, ursa_cl_nonce_to_json, ursa_cl_nonce_from_json, ursa_cl_nonce_free;
}

pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| {
            let mut x = norm(x);
            if k == "issued" || k == "revoked" { if let Value::Array(a) = &mut x { a.sort_by_key(|e| e.as_u64()) } }
            (k.clone(), x)
        }).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}
/// An object of the Rust API and the same one of the C API.
pub struct Both<T> {
    pub r: T,
    pub h: H,
}
pub fn both<T: serde::Serialize>(r: T, d: Doc) -> Both<T> {
    let h = d.read(&jval(&r)).expect(d.name);
    Both { r, h }
}
/// What a call did in both APIs, from the same state of the random number generator.
pub fn twice<T>(c: &mut Ctx, what: &str, r: impl FnOnce() -> U<T>, cc: impl FnOnce() -> usize, outs: &[&Out], fuzzy: bool) -> Result<Option<T>, Violation> {
    let n = 7000 + what.len() as u64;
    c.step();
    reseed(n);
    let a = guard(r);
    reseed(n);
    let code = match &a { Err(p) => return Err(Violation { key: "panic".into(), msg: format!("{}: panic: {}", what, p) }), Ok(_) => cc() };
    match a.unwrap() {
        Ok(v) => {
            c.ensure(code == 0, "refused", || format!("{}: the Rust API does it, the C API gives error {} ({:?})", what, code, last_error()))?;
            c.ensure(outs.iter().all(|o| !o.untouched()), "output", || format!("{}: an output is not set", what))?;
            Ok(Some(v))
        }
        Err(e) => {
            let want = ErrorCode::from(e.kind()) as usize;
            c.ensure(code != 0, "accepted", || format!("{}: the Rust API refuses it ({}), the C API does it", what, short(&e.to_string())))?;
            c.ensure(code == want, "code", || format!("{}: error {} instead of {}", what, code, want))?;
            c.ensure(outs.iter().all(|o| o.untouched()), "untouched", || format!("{}: an output is set although the call failed", what))?;
            let m = last_error();
            c.ensure(m.is_some() && (fuzzy || m == Some(e.to_string())), "message", || format!("{}: the last error is {:?} instead of {:?}", what, m, e.to_string()))?;
            Ok(None)
        }
    }
}
/// Where two documents differ.
fn differ(a: &Value, b: &Value) -> String {
    let mut all: Vec<_> = jsonmut::leaves(a);
    all.extend(jsonmut::leaves(b));
    all.iter().filter(|p| jsonmut::get(a, p) != jsonmut::get(b, p)).map(|p| format!("{:?}", p)).take(3).collect::<Vec<_>>().join(" ")
}
pub fn equal<T: serde::Serialize>(c: &mut Ctx, what: &str, r: &T, d: Doc, h: usize) -> R {
    let got = d.write(h);
    let want = norm(&jval(r));
    c.ensure(got.as_ref().map(norm) == Ok(want.clone()), "differs", || format!("{}: the C API's object is {} instead of {}; they differ at {}", what, got.as_ref().map(|g| short(&g.to_string())).unwrap_or_else(|e| format!("error {}", e)), short(&want.to_string()), got.as_ref().map(|g| differ(g, &want)).unwrap_or_default()))
}
/// Makes one of both; the handle takes a turn through JSON if so chosen.
pub fn pair<T: serde::Serialize>(c: &mut Ctx, what: &str, r: T, d: Doc, o: &Out, turn: bool) -> Result<Both<T>, Violation> {
    let mut h = H::new(o.get(), d.free);
    equal(c, what, &r, d, h.p)?;
    if ["d_bf", "d_rks", "d_ms"].contains(&d.name) { crate::logs::secret(what, &jval(&r)) }
    if turn {
        let v = d.write(h.p).unwrap_or(Value::Null);
        h = match d.read(&v) { Ok(h) => h, Err(e) => return Err(Violation { key: "turn".into(), msg: format!("{}: the C API does not read what it has written: error {}", what, e) }) };
        equal(c, what, &r, d, h.p)?;
    }
    Ok(Both { r, h })
}

macro_rules! builder { ($name:ident, $new:path, $fin:path, $free:path, |$b:ident, $x:ident : $t:ty| $body:block) => {
    pub fn $name($x: $t) -> H {
        let o = Out::new();
        assert_eq!(call($new as usize, &[o.p()]), 0);
        let $b = o.get();
        $body
        let o = Out::new();
        assert_eq!(call($fin as usize, &[$b, o.p()]), 0);
        H::new(o.get(), $free as usize)
    }
} }
builder!(c_schema, fc::ursa_cl_credential_schema_builder_new, fc::ursa_cl_credential_schema_builder_finalize, fc::ursa_cl_credential_schema_free, |b, x: &[&str]| {
    for a in x { assert_eq!(call(fc::ursa_cl_credential_schema_builder_add_attr as usize, &[b, s(a).p()]), 0) }
});
builder!(c_non, fc::ursa_cl_non_credential_schema_builder_new, fc::ursa_cl_non_credential_schema_builder_finalize, fc::ursa_cl_non_credential_schema_free, |b, x: &[&str]| {
    for a in x { assert_eq!(call(fc::ursa_cl_non_credential_schema_builder_add_attr as usize, &[b, s(a).p()]), 0) }
});
builder!(c_values, fc::ursa_cl_credential_values_builder_new, fc::ursa_cl_credential_values_builder_finalize, fc::ursa_cl_credential_values_free, |b, x: &Vals| {
    for (a, k, d) in x {
        let (a, d) = (s(a), s(d));
        assert_eq!(match k {
            Kind::Known => call(fc::ursa_cl_credential_values_builder_add_dec_known as usize, &[b, a.p(), d.p()]),
            Kind::Hidden => call(fc::ursa_cl_credential_values_builder_add_dec_hidden as usize, &[b, a.p(), d.p()]),
            Kind::Commit => call(fc::ursa_cl_credential_values_builder_add_dec_commitment as usize, &[b, a.p(), d.p(), s("123456789012345678901234567890").p()]),
        }, 0)
    }
});
builder!(c_request, fc::ursa_cl_sub_proof_request_builder_new, fc::ursa_cl_sub_proof_request_builder_finalize, fc::ursa_cl_sub_proof_request_free, |b, x: &Req| {
    for a in &x.revealed { assert_eq!(call(fc::ursa_cl_sub_proof_request_builder_add_revealed_attr as usize, &[b, s(a).p()]), 0) }
    for (a, t, v) in &x.preds { assert_eq!(call(fc::ursa_cl_sub_proof_request_builder_add_predicate as usize, &[b, s(a).p(), s(t).p(), *v as u32 as usize]), 0) }
});

/// Tails: handles for the C API; the access after `fail` others fails, in one of the ways that a callback can.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Way { No, Take, Null, Put }
pub struct Tails {
    pub r: Vec<Tail>,
    pub h: Vec<H>,
}
pub struct Access<'a> {
    t: &'a Tails,
    left: std::cell::Cell<i64>,
    way: Way,
    out: std::cell::Cell<i64>,
}
pub fn access<'a>(t: &'a Tails, fail: Option<(usize, Way)>) -> Access<'a> {
    Access { t, left: std::cell::Cell::new(fail.map_or(i64::MAX, |f| f.0 as i64)), way: fail.map_or(Way::No, |f| f.1), out: std::cell::Cell::new(0) }
}
impl<'a> Access<'a> {
    fn fails(&self) -> bool { self.left.set(self.left.get() - 1); self.left.get() == -1 }
    pub fn p(&self) -> usize { self as *const Access as usize }
    pub fn balanced(&self) -> bool { self.out.get() == 0 }
}
impl<'a> RevocationTailsAccessor for Access<'a> {
    fn access_tail(&self, id: u32, accessor: &mut dyn FnMut(&Tail)) -> Result<(), UrsaCryptoError> {
        let e = || err_msg(UrsaCryptoErrorKind::InvalidState, "tail");
        let fails = self.fails();
        if fails && self.way != Way::Put { return Err(e()) }
        let t = self.t.r.get(id as usize).ok_or_else(e)?;
        accessor(t);
        if fails { return Err(e()) }
        Ok(())
    }
}
pub extern "C" fn take_tail(ctx: *const std::os::raw::c_void, id: u32, p: *mut *const std::os::raw::c_void) -> ErrorCode {
    let a = unsafe { &*(ctx as *const Access) };
    if a.fails() {
        match a.way { Way::Take => return ErrorCode::CommonIOError, Way::Null => return ErrorCode::Success, _ => a.left.set(i64::MIN) }
    }
    match a.t.h.get(id as usize) {
        Some(h) => { a.out.set(a.out.get() + 1); unsafe { *p = h.p as *const _ }; ErrorCode::Success }
        None => ErrorCode::CommonIOError,
    }
}
pub extern "C" fn put_tail(ctx: *const std::os::raw::c_void, tail: *const std::os::raw::c_void) -> ErrorCode {
    let a = unsafe { &*(ctx as *const Access) };
    a.out.set(a.out.get() - if a.t.h.iter().any(|h| h.p == tail as usize) { 1 } else { 1000 });
    if a.left.get() == i64::MIN { a.left.set(i64::MAX); return ErrorCode::CommonIOError }
    ErrorCode::Success
}
pub fn cbs() -> [usize; 2] { [take_tail as usize, put_tail as usize] }

/// An issuer in both APIs.
pub struct I2 {
    pub r: Arc<Iss>,
    pub schema: H,
    pub non: H,
    pub pk: H,
    pub sk: H,
    pub kcp: H,
}
pub fn iss2(i: &Arc<Iss>) -> I2 {
    I2 { r: i.clone(), schema: c_schema(&i.attrs), non: c_non(&i.hidden), pk: d_pk().read(&jval(&i.pk)).expect("pk"), sk: d_sk().read(&jval(&i.sk)).expect("sk"), kcp: d_kcp().read(&jval(&i.kcp)).expect("kcp") }
}
pub fn issuers() -> Arc<Vec<Arc<Iss>>> {
    static M: Memo<u8, Vec<Arc<Iss>>> = Memo::new();
    M.of(&0, || vec![
        Arc::new(new_issuer(677, &["age", "name", "sex"], &["master_secret"], true)),
        Arc::new(new_issuer(466, &["age", "name", "sex"], &["master_secret"], true)),
        Arc::new(new_issuer(783, &["age", "status"], &["master_secret"], false)),
    ])
}
pub struct Reg2 {
    pub pubk: Both<RevocationKeyPublic>,
    pub privk: Both<RevocationKeyPrivate>,
    pub reg: Both<RevocationRegistry>,
    pub tails: Tails,
    pub max: u32,
    pub by_default: bool,
}
/// A new registry, by both APIs.
pub fn registry(c: &mut Ctx, i: &I2, max: u32, by_default: bool, turn: bool) -> Result<Option<Reg2>, Violation> {
    let (a, b, d, e) = (Out::new(), Out::new(), Out::new(), Out::new());
    let got = twice(c, "new_revocation_registry_def", || Issuer::new_revocation_registry_def(&i.r.pk, max, by_default),
        || call(fi::ursa_cl_issuer_new_revocation_registry_def as usize, &[i.pk.p, max as usize, by_default as usize, a.p(), b.p(), d.p(), e.p()]), &[&a, &b, &d, &e], false)?;
    let (pubk, privk, reg, gen) = match got { Some(g) => g, None => return Ok(None) };
    let pubk = pair(c, "the registry's public key", pubk, d_rkp(), &a, turn)?;
    let privk = pair(c, "the registry's private key", privk, d_rks(), &b, turn)?;
    let reg = pair(c, "the registry", reg, d_reg(), &d, turn)?;
    let gen = pair(c, "the tails generator", gen, d_gen(), &e, turn)?;
    let mut tails = Tails { r: vec![], h: vec![] };
    let Both { r: mut g, h } = gen;
    loop {
        let n = Out::new();
        c.ensure(call(fc::ursa_cl_tails_generator_count as usize, &[h.p, n.p()]) == 0 && n.get() as u32 == g.count(), "count", || format!("the tails generator counts {} instead of {}", n.get() as u32, g.count()))?;
        let o = Out::new();
        let t = match twice(c, "tails_generator_next", || g.try_next(), || call(fc::ursa_cl_tails_generator_next as usize, &[h.p, o.p()]), &[&o], false)? { Some(t) => t, None => return Ok(None) };
        match t {
            Some(t) => {
                c.ensure(o.get() != 0, "tail", || "the C API ends the tails early".into())?;
                tails.r.push(t);
                tails.h.push(H::new(o.get(), fc::ursa_cl_tail_free as usize));
            }
            None => { c.ensure(o.get() == 0, "tail", || "the C API gives another tail".into())?; break }
        }
    }
    Ok(Some(Reg2 { pubk, privk, reg, tails, max, by_default }))
}
pub type Blinded = (Both<BlindedCredentialSecrets>, Both<CredentialSecretsBlindingFactors>, Both<BlindedCredentialSecretsCorrectnessProof>);
pub fn blind(c: &mut Ctx, pk: (&CredentialPublicKey, &H), kcp: (&CredentialKeyCorrectnessProof, &H), v: &Vals, n: &Both<Nonce>, turn: bool) -> Result<Option<Blinded>, Violation> {
    let (a, b, d) = (Out::new(), Out::new(), Out::new());
    let cv = c_values(v);
    Ok(match twice(c, "blind_credential_secrets", || Prover::blind_credential_secrets(pk.0, kcp.0, &values(v), &n.r),
        || call(fp::ursa_cl_prover_blind_credential_secrets as usize, &[pk.1.p, kcp.1.p, cv.p, n.h.p, a.p(), b.p(), d.p()]), &[&a, &b, &d], false)? {
        Some((x, y, z)) => Some((pair(c, "blinded secrets", x, d_bs(), &a, turn)?, pair(c, "blinding factors", y, d_bf(), &b, turn)?, pair(c, "proof of the blinded secrets", z, d_bp(), &d, turn)?)),
        None => None,
    })
}
pub fn nonce(c: &mut Ctx, turn: bool) -> Result<Both<Nonce>, Violation> {
    let o = Out::new();
    let n = twice(c, "new_nonce", new_nonce, || call(fc::ursa_cl_new_nonce as usize, &[o.p()]), &[&o], false)?.expect("a nonce");
    pair(c, "a nonce", n, d_nonce(), &o, turn)
}
pub fn other_nonce() -> Both<Nonce> { both(bn("1234567890123456789"), d_nonce()) }

pub type Signed = (Both<CredentialSignature>, Both<SignatureCorrectnessProof>, Option<Both<RevocationRegistryDelta>>);
pub struct SignArgs<'a> {
    pub prover_id: &'a str,
    pub b: &'a Blinded,
    pub n1: &'a Both<Nonce>,
    pub n2: &'a Both<Nonce>,
    pub v: Vals,
    pub pk: (&'a CredentialPublicKey, &'a H),
    pub sk: (&'a CredentialPrivateKey, &'a H),
}
pub fn sign(c: &mut Ctx, a: &SignArgs, rev: Option<(&mut Reg2, u32, u32, Option<(usize, Way)>)>, turn: bool) -> Result<Option<Signed>, Violation> {
    let cv = c_values(&a.v);
    let pid = s(a.prover_id);
    let (x, y, z) = (Out::new(), Out::new(), Out::new());
    let base = [pid.p(), a.b.0.h.p, a.b.2.h.p, a.n1.h.p, a.n2.h.p, cv.p, a.pk.1.p, a.sk.1.p];
    match rev {
        None => Ok(match twice(c, "sign_credential", || Issuer::sign_credential(a.prover_id, &a.b.0.r, &a.b.2.r, &a.n1.r, &a.n2.r, &values(&a.v), a.pk.0, a.sk.0),
            || call(fi::ursa_cl_issuer_sign_credential as usize, &[&base[..], &[x.p(), y.p()]].concat()), &[&x, &y], false)? {
            Some((sig, scp)) => Some((pair(c, "the signature", sig, d_sig(), &x, turn)?, pair(c, "the signature's proof", scp, d_scp(), &y, turn)?, None)),
            None => None,
        }),
        Some((g, idx, max, fail)) => {
            let (ar, ac) = (access(&g.tails, fail), access(&g.tails, fail));
            let (reg, regh) = (&mut g.reg.r, g.reg.h.p);
            let (def, privk) = (g.by_default, &g.privk);
            let got = twice(c, "sign_credential_with_revoc", || Issuer::sign_credential_with_revoc(a.prover_id, &a.b.0.r, &a.b.2.r, &a.n1.r, &a.n2.r, &values(&a.v), a.pk.0, a.sk.0, idx, max, def, reg, &privk.r, &ar),
                || call(fi::ursa_cl_issuer_sign_credential_with_revoc as usize, &[&base[..], &[idx as usize, max as usize, def as usize, regh, privk.h.p, ac.p()], &cbs(), &[x.p(), y.p(), z.p()]].concat()), &[&x, &y, &z], fail.is_some())?;
            c.ensure(ac.balanced(), "tails", || "not every tail taken was put back once".into())?;
            equal(c, "the registry after signing", &g.reg.r, d_reg(), regh)?;
            Ok(match got {
                Some((sig, scp, delta)) => {
                    c.ensure(delta.is_some() == (z.get() != 0), "delta", || "a delta of one API only".into())?;
                    let d = match delta { Some(d) => Some(pair(c, "the delta of the signature", d, d_delta(), &z, turn)?), None => None };
                    Some((pair(c, "the signature", sig, d_sig(), &x, turn)?, pair(c, "the signature's proof", scp, d_scp(), &y, turn)?, d))
                }
                None => None,
            })
        }
    }
}
pub fn from_parts(c: &mut Ctx, from: Option<&Both<RevocationRegistry>>, to: &Both<RevocationRegistry>, issued: &[u32], revoked: &[u32], turn: bool) -> Result<Both<RevocationRegistryDelta>, Violation> {
    let o = Out::new();
    let r = twice(c, "revocation_registry_delta_from_parts", || Ok(RevocationRegistryDelta::from_parts(from.map(|f| &f.r), &to.r, &issued.iter().cloned().collect::<HashSet<u32>>(), &revoked.iter().cloned().collect::<HashSet<u32>>())),
        || call(fi::ursa_revocation_registry_delta_from_parts as usize, &[from.map_or(0, |f| f.h.p), to.h.p, issued.as_ptr() as usize, issued.len(), revoked.as_ptr() as usize, revoked.len(), o.p()]), &[&o], false)?.expect("a delta");
    pair(c, "a delta from its parts", r, d_delta(), &o, turn)
}
/// The witness has no JSON in the C API: what it does is compared.
pub struct W2 {
    pub r: Witness,
    pub h: H,
}
pub fn witness(c: &mut Ctx, g: &Reg2, idx: u32, max: u32, d: &Both<RevocationRegistryDelta>, fail: Option<(usize, Way)>) -> Result<Option<W2>, Violation> {
    let o = Out::new();
    let (ar, ac) = (access(&g.tails, fail), access(&g.tails, fail));
    let r = twice(c, "witness_new", || Witness::new(idx, max, g.by_default, &d.r, &ar), || call(fc::ursa_cl_witness_new as usize, &[&[idx as usize, max as usize, g.by_default as usize, d.h.p, ac.p()][..], &cbs(), &[o.p()]].concat()), &[&o], fail.is_some())?;
    c.ensure(ac.balanced(), "tails", || "not every tail taken was put back once".into())?;
    Ok(r.map(|r| W2 { r, h: H::new(o.get(), fc::ursa_cl_witness_free as usize) }))
}
pub fn witness_update(c: &mut Ctx, g: &Reg2, w: &mut W2, idx: u32, max: u32, d: &Both<RevocationRegistryDelta>, fail: Option<(usize, Way)>) -> Result<bool, Violation> {
    let (ar, ac) = (access(&g.tails, fail), access(&g.tails, fail));
    let (r, h) = (&mut w.r, w.h.p);
    let r = twice(c, "witness_update", || r.update(idx, max, &d.r, &ar), || call(fc::ursa_cl_witness_update as usize, &[&[idx as usize, max as usize, d.h.p, h, ac.p()][..], &cbs()].concat()), &[], fail.is_some())?;
    c.ensure(ac.balanced(), "tails", || "not every tail taken was put back once".into())?;
    Ok(r.is_some())
}
pub fn process(c: &mut Ctx, sig: &mut Both<CredentialSignature>, v: &Vals, scp: &Both<SignatureCorrectnessProof>, bf: &Both<CredentialSecretsBlindingFactors>, pk: (&CredentialPublicKey, &H), n: &Both<Nonce>,
    rev: (Option<&Both<RevocationKeyPublic>>, Option<&Both<RevocationRegistry>>, Option<&W2>)) -> Result<bool, Violation> {
    let cv = c_values(v);
    let (r, h) = (&mut sig.r, sig.h.p);
    let got = twice(c, "process_credential_signature", || Prover::process_credential_signature(r, &values(v), &scp.r, &bf.r, pk.0, &n.r, rev.0.map(|x| &x.r), rev.1.map(|x| &x.r), rev.2.map(|x| &x.r)),
        || call(fp::ursa_cl_prover_process_credential_signature as usize, &[h, cv.p, scp.h.p, bf.h.p, pk.1.p, n.h.p, rev.0.map_or(0, |x| x.h.p), rev.1.map_or(0, |x| x.h.p), rev.2.map_or(0, |x| x.h.p)]), &[], false)?;
    equal(c, "the credential", &sig.r, d_sig(), sig.h.p)?;
    // its index
    let o = Out::new();
    let code = call(fp::ursa_cl_prover_get_credential_revocation_index as usize, &[sig.h.p, o.p()]);
    match sig.r.extract_index() {
        Some(i) => c.ensure(code == 0 && o.get() as u32 == i, "index", || format!("the credential's index is {} (error {})", o.get() as u32, code))?,
        None => c.ensure(code != 0 && o.untouched(), "index", || "an index of a credential without".into())?,
    }
    Ok(got.is_some())
}
pub struct P2<'a> {
    pub i: &'a I2,
    pub schema: (&'a CredentialSchema, &'a H),
    pub sig: &'a Both<CredentialSignature>,
    pub v: Vals,
    pub req: Req,
    pub rev: Option<(&'a Both<RevocationRegistry>, &'a W2)>,
}
/// The C API's proof for both, and the Rust API's own: the prover draws its numbers in the order of a set, so that they differ.
pub struct Proofs {
    pub c: Both<Proof>,
    pub own: Proof,
}
fn parts_of(v: &Value) -> Vec<String> {
    let mut l: Vec<String> = jsonmut::leaves(v).into_iter().filter(|p| !p.contains("/c_list/")).collect();
    l.sort();
    l
}
/// The proofs, or none if both refuse.
pub fn proof(c: &mut Ctx, parts: &[P2], common: &[&str], n: &Both<Nonce>, turn: bool) -> Result<Option<Proofs>, Violation> {
    let o = Out::new();
    let mut b = match twice(c, "new_proof_builder", Prover::new_proof_builder, || call(fp::ursa_cl_prover_new_proof_builder as usize, &[o.p()]), &[&o], false)? { Some(b) => b, None => return Ok(None) };
    let h = o.get();
    for a in common {
        twice(c, "add_common_attribute", || b.add_common_attribute(a), || call(fp::ursa_cl_proof_builder_add_common_attribute as usize, &[h, s(a).p()]), &[], false)?;
    }
    let mut ok = true;
    for p in parts {
        let (cv, cr) = (c_values(&p.v), c_request(&p.req));
        // The prover draws its numbers in the order of a set.
        let got = twice(c, "add_sub_proof_request", || b.add_sub_proof_request(&request(&p.req), p.schema.0, &p.i.r.non, &p.sig.r, &values(&p.v), &p.i.r.pk, p.rev.map(|x| &x.0.r), p.rev.map(|x| &x.1.r)),
            || call(fp::ursa_cl_proof_builder_add_sub_proof_request as usize, &[h, cr.p, p.schema.1.p, p.i.non.p, p.sig.h.p, cv.p, p.i.pk.p, p.rev.map_or(0, |x| x.0.h.p), p.rev.map_or(0, |x| x.1.h.p)]), &[], false)?;
        ok &= got.is_some();
    }
    let o = Out::new();
    let r = twice(c, "proof_builder_finalize", || b.finalize(&n.r), || call(fp::ursa_cl_proof_builder_finalize as usize, &[h, n.h.p, o.p()]), &[&o], false)?;
    let p = match r { Some(p) => p, None => return Ok(None) };
    let mut h = H::new(o.get(), d_proof().free);
    let v = d_proof().write(h.p).unwrap_or(Value::Null);
    if turn { h = match d_proof().read(&v) { Ok(h) => h, Err(e) => return violation("turn", format!("the proof: error {}", e)) } }
    c.ensure(parts_of(&v) == parts_of(&jval(&p)), "differs", || format!("the proofs differ in their parts at {:?} and {:?}", parts_of(&v), parts_of(&jval(&p))))?;
    let r: Proof = match serde_json::from_value(v) { Ok(r) => r, Err(e) => return violation("turn", format!("the Rust API does not read the C API's proof: {}", e)) };
    Ok(if ok { Some(Proofs { c: Both { r, h }, own: p }) } else { None })
}
pub struct V2<'a> {
    pub schema: (&'a CredentialSchema, &'a H),
    pub non: (&'a NonCredentialSchema, &'a H),
    pub pk: (&'a CredentialPublicKey, &'a H),
    pub req: Req,
    pub rev: (Option<&'a Both<RevocationKeyPublic>>, Option<&'a Both<RevocationRegistry>>),
}
pub fn want2<'a>(i: &'a I2, req: &Req) -> V2<'a> {
    V2 { schema: (&i.r.schema, &i.schema), non: (&i.r.non, &i.non), pk: (&i.r.pk, &i.pk), req: req.clone(), rev: (None, None) }
}
/// The verdict of both APIs: accepted, refused or an error.
pub fn check(c: &mut Ctx, wants: &[V2], common: &[&str], p: &Proofs, n: &Both<Nonce>) -> Result<Option<bool>, Violation> {
    let (p, own) = (&p.c, &p.own);
    let o = Out::new();
    let mut v = match twice(c, "new_proof_verifier", Verifier::new_proof_verifier, || call(fv::ursa_cl_verifier_new_proof_verifier as usize, &[o.p()]), &[&o], false)? { Some(b) => b, None => return Ok(None) };
    let h = o.get();
    for a in common {
        twice(c, "verifier: add_common_attribute", || v.add_common_attribute(a), || call(fv::ursa_cl_proof_verifier_add_common_attribute as usize, &[h, s(a).p()]), &[], false)?;
    }
    for w in wants {
        let cr = c_request(&w.req);
        twice(c, "verifier: add_sub_proof_request", || v.add_sub_proof_request(&request(&w.req), w.schema.0, w.non.0, w.pk.0, w.rev.0.map(|x| &x.r), w.rev.1.map(|x| &x.r)),
            || call(fv::ursa_cl_proof_verifier_add_sub_proof_request as usize, &[h, cr.p, w.schema.1.p, w.non.1.p, w.pk.1.p, w.rev.0.map_or(0, |x| x.h.p), w.rev.1.map_or(0, |x| x.h.p)]), &[], false)?;
    }
    for before in 0..2u8 {
        // the flag is written either way
        let flag: Box<[u8; 8]> = Box::new([before; 8]);
        let fp = flag.as_ptr() as usize;
        if before == 0 { continue }
        let r = twice(c, "proof_verifier_verify", || v.verify(&p.r, &n.r), || call(fv::ursa_cl_proof_verifier_verify as usize, &[h, p.h.p, n.h.p, fp]), &[], false)?;
        let got = unsafe { std::ptr::read_volatile(fp as *const u8) };
        if let Some(r) = r {
            c.ensure(got == r as u8, "verdict", || format!("the verdict of the C API is {} instead of {}", got, r))?;
            c.ensure(flag[1..] == [before; 7], "verdict", || "more than the verdict is written".into())?;
            let o = guard(|| v.verify(own, &n.r));
            c.ensure(matches!(&o, Ok(Ok(b)) if *b == r), "verdict", || format!("the Rust API's verdict about its own proof is {:?}, about the C API's {}", o.map(|x| x.map_err(|e| e.to_string())), r))?;
        } else {
            c.ensure(got == before, "untouched", || "a verdict although the call failed".into())?;
        }
        return Ok(r);
    }
    Ok(None)
}

const SHAPES: [&str; 3] = ["known", "commitment", "more hidden"];
pub fn shape(k: usize, age: &str) -> Vals {
    let mut v = std_vals(MS1, age, NAME);
    match k { 1 => v[2].1 = Kind::Commit, 2 => v[3].1 = Kind::Hidden, _ => {} }
    v
}
pub const DEV: [&str; 36] = ["none", "index 1", "index 3", "blind: another issuer's key and proof", "blind: another key's proof", "sign: another nonce", "sign: a value is missing", "sign: another private key", "sign: another prover", "sign: an unknown value",
    "process: another nonce", "process: other values", "process: nothing of the registry", "process: no witness", "prove: another schema", "prove: a revealed attribute that is not there", "prove: a false predicate", "prove: without the registry",
    "prove: a value is missing", "verify: another nonce", "verify: another key", "verify: another request", "verify: another predicate", "verify: without registry", "verify: without registry key", "verify: before the revocation",
    "common: builder only", "common: verifier only", "common: both", "verify: another schema", "verify: nothing asked", "revoked", "index 0", "index beyond", "size", "prove: another registry"];
fn protocol(c: &mut Ctx) -> R {
    let all = issuers();
    let k = c.pick("issuer", &[0usize, 2]);
    let (i, other) = (iss2(&all[k]), iss2(&all[if k == 0 { 1 } else { 0 }]));
    let sh = if k == 0 { c.choose("shape", SHAPES.len()) } else { 0 };
    let rev = if k == 0 { c.pick("revocation", &[0, 1, 2]) } else { 0 };
    let dev = DEV[c.choose("deviation", DEV.len())];
    let turn = c.flag("through JSON");
    c.state(&(k, sh, rev, dev, turn));
    let v = if k == 0 { shape(sh, "28") } else { vals2(MS1, "28", "51792877103171595686471452153480627530895") };
    run(c, &i, &other, &v, rev, dev, turn)
}
pub fn run(c: &mut Ctx, i: &I2, other: &I2, v: &Vals, rev: usize, dev: &str, turn: bool) -> R {
    let (pk, sk, opk) = ((&i.r.pk, &i.pk), (&i.r.sk, &i.sk), (&other.r.pk, &other.pk));
    let (n1, n2, odd) = (nonce(c, turn)?, nonce(c, turn)?, other_nonce());
    let mut g = match rev { 0 => None, r => match registry(c, i, 3, r == 1, turn)? { Some(g) => Some(g), None => return violation("registry", "no registry") } };
    let kcp = (&i.r.kcp, &i.kcp);
    let b = blind(c, if dev.starts_with("blind: another issuer's") { opk } else { pk }, if dev.starts_with("blind") { (&other.r.kcp, &other.kcp) } else { kcp }, v, &n1, turn)?;
    let b = match b { Some(b) => b, None => { c.outcome("blind refused"); return Ok(()) } };
    let mut kv = known(v);
    if dev == "sign: a value is missing" { kv.remove(0); }
    if dev == "sign: an unknown value" { kv.push(("nickname", Kind::Known, "5".into())) }
    let a = SignArgs { prover_id: if dev == "sign: another prover" { "x" } else { PROVER_ID }, b: &b, n1: if dev == "sign: another nonce" { &odd } else { &n1 }, n2: &n2, v: kv, pk, sk: if dev == "sign: another private key" { (&other.r.sk, &other.sk) } else { sk } };
    let idx = match dev { "index 0" => 0, "index 1" => 1, "index 3" => 3, "index beyond" => 4, _ => 2 };
    let max = if dev == "size" { 1 } else { 3 };
    let empty = match &g { Some(g) => Some(from_parts(c, None, &g.reg, &if g.by_default { vec![1, 2, 3] } else { vec![] }, &[], turn)?), None => None };
    let signed = sign(c, &a, g.as_mut().map(|g| (g, idx, max, None)), turn)?;
    let (mut sig, scp, delta) = match signed { Some(x) => x, None => { c.outcome("sign refused"); return Ok(()) } };
    let mut w = None;
    let mut stale = None;
    if let Some(g) = &mut g {
        let mut total = match &delta { Some(d) => d.h.p, None => empty.as_ref().unwrap().h.p };
        let m = Out::new();
        let mut merged = None;
        if let (Some(e), Some(d)) = (&empty, &delta) {
            let x = twice(c, "merge", || { let mut x: RevocationRegistryDelta = clone(&e.r); x.merge(&d.r)?; Ok(x) }, || call(fi::ursa_cl_issuer_merge_revocation_registry_deltas as usize, &[e.h.p, d.h.p, m.p()]), &[&m], false)?;
            if let Some(x) = x { let x = pair(c, "the merged delta", x, d_delta(), &m, turn)?; total = x.h.p; merged = Some(x) }
        }
        let _ = total;
        let d = match (&merged, &delta) { (Some(m), _) => m, (None, Some(d)) => d, _ => empty.as_ref().unwrap() };
        w = witness(c, g, idx, max, d, None)?;
        if w.is_none() { c.outcome("witness refused"); return Ok(()) }
    }
    let vv = if dev == "process: other values" { let mut x = v.clone(); x[1].2 = "29".into(); x } else { v.clone() };
    let parts = match (&g, dev) { (None, _) | (_, "process: nothing of the registry") => (None, None, None), (Some(g), "process: no witness") => (Some(&g.pubk), Some(&g.reg), None), (Some(g), _) => (Some(&g.pubk), Some(&g.reg), w.as_ref()) };
    if !process(c, &mut sig, &vv, &scp, &b.1, pk, if dev == "process: another nonce" { &odd } else { &n2 }, parts)? { c.outcome("process refused"); return Ok(()) }
    if dev == "revoked" || dev == "verify: before the revocation" {
        if let Some(g) = &mut g {
            stale = Some(both(clone(&g.reg.r), d_reg()));
            let o = Out::new();
            let (ar, ac) = (access(&g.tails, None), access(&g.tails, None));
            let (r, h) = (&mut g.reg.r, g.reg.h.p);
            let d = twice(c, "revoke", || Issuer::revoke_credential(r, 3, idx, &ar), || call(fi::ursa_cl_issuer_revoke_credential as usize, &[&[h, 3, idx as usize, ac.p()][..], &cbs(), &[o.p()]].concat()), &[&o], false)?;
            if let Some(d) = d { pair(c, "the delta of the revocation", d, d_delta(), &o, turn)?; }
            equal(c, "the registry after the revocation", &g.reg.r, d_reg(), g.reg.h.p)?;
        }
    }
    let mut rq = if i.r.attrs.contains(&"name") { if v[2].1 == Kind::Known { req(&["name"], &[("age", "GE", 18)]) } else { req(&[], &[("age", "GE", 18)]) } } else { req(&["status"], &[("age", "LT", 30)]) };
    let good = rq.clone();
    if dev == "prove: a revealed attribute that is not there" { rq.revealed.insert("shoe"); }
    if dev == "prove: a false predicate" { rq.preds = vec![("age", "GT", 28)] }
    let mut pv = v.clone();
    if dev == "prove: a value is missing" { pv.remove(1); }
    let np = nonce(c, turn)?;
    let extra = match &g { Some(g) if dev == "prove: another registry" => Some(both(clone(&stale.as_ref().map_or_else(|| clone(&g.reg.r), |s| clone(&s.r))), d_reg())), _ => None };
    let p = P2 { i, schema: if dev == "prove: another schema" { (&other.r.schema, &other.schema) } else { (&i.r.schema, &i.schema) }, sig: &sig, v: pv, req: rq.clone(),
        rev: match (&g, &w) { (Some(g), Some(w)) if dev != "prove: without the registry" => Some((extra.as_ref().unwrap_or(if dev == "verify: before the revocation" { stale.as_ref().unwrap_or(&g.reg) } else { &g.reg }), w)), _ => None } };
    let cb: &[&str] = match dev { "common: builder only" | "common: both" => &["master_secret"], _ => &[] };
    let cv: &[&str] = match dev { "common: verifier only" | "common: both" => &["master_secret"], _ => &[] };
    let proof = match proof(c, &[p], cb, &np, turn)? { Some(p) => p, None => { c.outcome("prove refused"); return Ok(()) } };
    let mut want = want2(i, &good);
    if let Some(g) = &g { want.rev = (Some(&g.pubk), Some(&g.reg)) }
    match dev {
        "verify: another key" => want.pk = opk,
        "verify: another request" => { want.req.revealed.clear(); want.req.revealed.insert("sex"); }
        "verify: another predicate" => want.req.preds = vec![("age", "GE", 19)],
        "verify: without registry" => want.rev.1 = None,
        "verify: without registry key" => want.rev.0 = None,
        "verify: before the revocation" => if let Some(s) = &stale { want.rev.1 = Some(s) },
        "verify: another schema" => want.schema = (&other.r.schema, &other.schema),
        _ => {}
    }
    let wants = if dev == "verify: nothing asked" { vec![] } else { vec![want] };
    let verdict = check(c, &wants, cv, &proof, if dev == "verify: another nonce" { &odd } else { &np })?;
    c.outcome(&format!("verdict {:?}", verdict));
    if ["none", "index 1", "index 3", "common: both"].contains(&dev) && v.iter().all(|x| x.1 != Kind::Commit) { c.ensure(verdict == Some(true), "complete", || "an honest proof is refused".into())? }
    Ok(())
}

/// Histories of a registry through both APIs.
fn history(c: &mut Ctx) -> R {
    let i = iss2(&issuers()[0]);
    let def = c.flag("issued by default");
    let turn = c.flag("through JSON");
    let mut g = match registry(c, &i, 3, def, turn)? { Some(g) => g, None => return violation("registry", "no registry") };
    let n = c.choose("length", c.q(4, 5));
    let mut valid: HashSet<u32> = if def { vec![1, 2, 3].into_iter().collect() } else { HashSet::new() };
    let init: Vec<u32> = valid.iter().cloned().collect();
    let mut acc = from_parts(c, None, &g.reg, &init, &[], turn)?;
    let mut w: Vec<Option<W2>> = vec![];
    for k in 1..=3u32 { w.push(witness(c, &g, k, 3, &acc, None)?) }
    for k in 0..n {
        let ops: Vec<(bool, u32)> = (0..=4).flat_map(|x| vec![(true, x), (false, x)]).filter(|(_, x)| (*x != 0 && *x != 4) || k + 1 == n).collect();
        let (revoke, idx) = *c.pick(&format!("operation {}", k), &ops.iter().collect::<Vec<_>>());
        let fail = if k + 1 == n { *c.pick("the tails", &[&None, &Some((0, Way::Take)), &Some((0, Way::Null)), &Some((0, Way::Put))]) } else { None };
        let o = Out::new();
        let (ar, ac) = (access(&g.tails, fail), access(&g.tails, fail));
        let (r, h) = (&mut g.reg.r, g.reg.h.p);
        let args = [&[h, 3, idx as usize, ac.p()][..], &cbs(), &[o.p()]].concat();
        let d = if revoke { twice(c, "revoke_credential", || Issuer::revoke_credential(r, 3, idx, &ar), || call(fi::ursa_cl_issuer_revoke_credential as usize, &args), &[&o], fail.is_some())? }
            else { twice(c, "recovery_credential", || Issuer::recovery_credential(r, 3, idx, &ar), || call(fi::ursa_cl_issuer_recovery_credential as usize, &args), &[&o], fail.is_some())? };
        c.ensure(ac.balanced(), "tails", || "not every tail taken was put back once".into())?;
        equal(c, "the registry", &g.reg.r, d_reg(), g.reg.h.p)?;
        let d = match d { Some(d) => pair(c, "the delta", d, d_delta(), &o, turn)?, None => { c.outcome("refused"); return Ok(()) } };
        if revoke { valid.remove(&idx); } else { valid.insert(idx); }
        for (x, w) in w.iter_mut().enumerate() { if let Some(w) = w { witness_update(c, &g, w, x as u32 + 1, 3, &d, None)?; } }
        let m = Out::new();
        let x = twice(c, "merge", || { let mut x: RevocationRegistryDelta = clone(&acc.r); x.merge(&d.r)?; Ok(x) }, || call(fi::ursa_cl_issuer_merge_revocation_registry_deltas as usize, &[acc.h.p, d.h.p, m.p()]), &[&m], false)?;
        match x { Some(x) => acc = pair(c, "the merged delta", x, d_delta(), &m, turn)?, None => { c.outcome("no merge"); return Ok(()) } }
        // merging out of order
        let m = Out::new();
        let r = twice(c, "merge: out of order", || { let mut x: RevocationRegistryDelta = clone(&d.r); x.merge(&acc.r)?; Ok(x) }, || call(fi::ursa_cl_issuer_merge_revocation_registry_deltas as usize, &[d.h.p, acc.h.p, m.p()]), &[&m], false)?;
        if r.is_some() { drop(H::new(m.get(), d_delta().free)) }
    }
    let mut vs: Vec<u32> = valid.into_iter().collect();
    vs.sort();
    c.state(&(def, &vs, turn));
    c.outcome("followed");
    // what the updated witnesses are worth: the next update reads them
    for k in 1..=3u32 { witness(c, &g, k, 3, &acc, None)?; }
    Ok(())
}
fn keys(c: &mut Ctx) -> R {
    let rev = c.flag("revocation");
    let attrs: &[&'static str] = &["age", "name", "sex"];
    let (sc, nc, r) = (c_schema(attrs), c_non(&["master_secret"]), (schema_of(attrs), non_schema_of(&["master_secret"])));
    let (x, y, z) = (Out::new(), Out::new(), Out::new());
    reseed(677);
    let a = match guard(|| Issuer::new_credential_def(&r.0, &r.1, rev)) { Ok(Ok(a)) => a, e => return violation("keys", format!("{:?}", e.err())) };
    reseed(677);
    let code = call(fi::ursa_cl_issuer_new_credential_def as usize, &[sc.p, nc.p, rev as usize, x.p(), y.p(), z.p()]);
    c.step();
    c.state(&rev);
    c.ensure(code == 0, "keys", || format!("error {}", code))?;
    let i = I2 { r: Arc::new(Iss {
            pk: serde_json::from_value(d_pk().write(x.get()).unwrap_or_default()).expect("public key"), sk: serde_json::from_value(d_sk().write(y.get()).unwrap_or_default()).expect("private key"),
            kcp: serde_json::from_value(d_kcp().write(z.get()).unwrap_or_default()).expect("the key's proof"), attrs: attrs.to_vec(), hidden: vec!["master_secret"], schema: r.0, non: r.1 }),
        schema: sc, non: nc, pk: H::new(x.get(), d_pk().free), sk: H::new(y.get(), d_sk().free), kcp: H::new(z.get(), d_kcp().free) };
    // the generators of the attributes are drawn in the order of a set
    let (pk, sk) = (norm(&jval(&i.r.pk)), norm(&jval(&i.r.sk)));
    for (what, got, want) in &[("public", &pk, norm(&jval(&a.0))), ("private", &sk, norm(&jval(&a.1)))] {
        c.ensure(parts_of(got) == parts_of(want), "keys", || format!("the {} keys differ in their parts", what))?;
        for p in jsonmut::leaves(got).iter().filter(|p| ["/p_key/n", "/p_key/s", "/p_key/p", "/p_key/q"].contains(&p.as_str())) {
            c.ensure(jsonmut::get(got, p) == jsonmut::get(want, p), "keys", || format!("the {} keys differ in {}", what, p))?;
        }
    }
    let all = issuers();
    run(c, &i, &iss2(&all[1]), &shape(0, "28"), if rev { 1 } else { 0 }, "none", true)
}
fn secret(c: &mut Ctx) -> R {
    let turn = c.flag("through JSON");
    let o = Out::new();
    c.state(&turn);
    let m = twice(c, "new_master_secret", Prover::new_master_secret, || call(fp::ursa_cl_prover_new_master_secret as usize, &[o.p()]), &[&o], false)?.expect("a secret");
    pair(c, "the master secret", m, d_ms(), &o, turn)?;
    Ok(())
}
/// Deltas put together from any two registries and lists.
fn parts(c: &mut Ctx) -> R {
    let k = crate::misuse::kit();
    let from = c.choose("from", 3);
    let to = c.choose("to", 2);
    let (issued, revoked) = (c.choose("issued", 8), c.choose("revoked", 8));
    let turn = c.flag("through JSON");
    c.state(&(from, to, issued, revoked, turn));
    let list = |m: usize| (0..3u32).filter(|i| m >> i & 1 == 1).map(|i| i * i + 1).collect::<Vec<u32>>();
    let reg = |i: usize| both::<RevocationRegistry>(serde_json::from_value(k.docs[["d_reg", "d_reg2"][i]].clone()).expect("registry"), d_reg());
    let f = if from == 0 { None } else { Some(reg(from - 1)) };
    from_parts(c, f.as_ref(), &reg(to), &list(issued), &list(revoked), turn).map(drop)
}
/// Values, schemas and requests that a builder refuses or not.
fn builders(c: &mut Ctx) -> R {
    const NUM: [&str; 9] = ["0", "1", "-1", "x", "12x", " 1", "115792089237316195423570985008687907853269984665640564039457584007913129639936", "0x10", "1e3"];
    const TYPES: [&str; 7] = ["GE", "LE", "GT", "LT", "ge", "EQ", "x"];
    let kind = c.choose("kind", 4);
    let o = Out::new();
    match kind {
        0 | 1 | 2 => {
            let x = *c.pick("number", &NUM.iter().collect::<Vec<_>>());
            let y = if kind == 2 { *c.pick("blinding", &NUM.iter().collect::<Vec<_>>()) } else { "5" };
            c.state(&(kind, x, y));
            let mut b = Issuer::new_credential_values_builder().expect("builder");
            c.ensure(call(fc::ursa_cl_credential_values_builder_new as usize, &[o.p()]) == 0, "builder", || "no builder".into())?;
            let h = o.get();
            let (a, sx, sy) = (s("a"), s(x), s(y));
            match kind {
                0 => twice(c, "add_dec_known", || b.add_dec_known("a", x), || call(fc::ursa_cl_credential_values_builder_add_dec_known as usize, &[h, a.p(), sx.p()]), &[], false)?,
                1 => twice(c, "add_dec_hidden", || b.add_dec_hidden("a", x), || call(fc::ursa_cl_credential_values_builder_add_dec_hidden as usize, &[h, a.p(), sx.p()]), &[], false)?,
                _ => twice(c, "add_dec_commitment", || b.add_dec_commitment("a", x, y), || call(fc::ursa_cl_credential_values_builder_add_dec_commitment as usize, &[h, a.p(), sx.p(), sy.p()]), &[], false)?,
            };
            let f = Out::new();
            c.ensure(call(fc::ursa_cl_credential_values_builder_finalize as usize, &[h, f.p()]) == 0, "builder", || "a builder does not end after a refusal".into())?;
            drop(H::new(f.get(), fc::ursa_cl_credential_values_free as usize));
        }
        _ => {
            let t = *c.pick("type", &TYPES.iter().collect::<Vec<_>>());
            let v = c.pick("value", &[0i32, -1, i32::MIN, i32::MAX]);
            c.state(&(t, v));
            let mut b = Verifier::new_sub_proof_request_builder().expect("builder");
            c.ensure(call(fc::ursa_cl_sub_proof_request_builder_new as usize, &[o.p()]) == 0, "builder", || "no builder".into())?;
            let h = o.get();
            twice(c, "add_predicate", || b.add_predicate("a", t, v), || call(fc::ursa_cl_sub_proof_request_builder_add_predicate as usize, &[h, s("a").p(), s(t).p(), v as u32 as usize]), &[], false)?;
            let f = Out::new();
            c.ensure(call(fc::ursa_cl_sub_proof_request_builder_finalize as usize, &[h, f.p()]) == 0, "builder", || "a builder does not end after a refusal".into())?;
            drop(H::new(f.get(), fc::ursa_cl_sub_proof_request_free as usize));
        }
    }
    Ok(())
}
/// Everything that was given out can be freed, once, and then nothing is left.
fn memory(c: &mut Ctx) -> R {
    let rev = c.pick("revocation", &[0, 1, 2]);
    let dev = DEV[c.choose("deviation", DEV.len())];
    c.state(&(rev, dev));
    let v = shape(0, "28");
    let all = issuers();
    let mut bad = None;
    let mut last = 0;
    for turn in vec![false, true] {
        let r = crate::mem::region(|| {
            let mut x = Ctx::scratch();
            let (i, other) = (iss2(&all[0]), iss2(&all[1]));
            let _ = run(&mut x, &i, &other, &v, rev, dev, turn);
        });
        if r.freed_twice { bad = Some(("freed-twice", "a block was freed twice".to_string())) }
        if r.written_after_free { bad = Some(("after-free", "a block was written after it was freed".to_string())) }
        last = r.blocks;
    }
    c.step();
    if let Some((k, m)) = bad { return violation(k, format!("{}: {}", dev, m)) }
    c.ensure(last == 0, "left", || format!("{} with registry kind {}: {} blocks are left after everything was freed", dev, rev, last))
}

pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution makes the same calls through the C functions (by address, every argument a register) and through the Rust API, each pair from the same state of the random number generator, and compares outcome, error code, error message, outputs (as JSON) and verdicts; in half of them every object of the C API takes a turn through JSON.".into(),
        assumptions: vec!["a handle is used by one thread at a time, and not after it was freed or taken".into()],
        scenarios: vec![
            Scenario::new("protocol", "the whole protocol x 2 issuers x 3 kinds of values x 3 kinds of registry x 36 deviations at one step x with and without JSON", protocol),
            Scenario::new("history", "all histories of up to 3 (4) revocations and recoveries of 5 indexes x kinds of registry x 4 ways of the tails to fail at the last", history),
            Scenario::new("keys", "key generation with and without revocation", keys),
            Scenario::new("secret", "master secrets", secret),
            Scenario::new("parts", "3 registries (or none) to 2 x all lists of 3 indices issued and revoked, twice", parts),
            Scenario::new("builders", "9 texts of numbers x 3 kinds of values (pairs for commitments), 7 types x 4 values of predicates", builders),
            Scenario::new("memory", "the protocol with 3 kinds of registry x 36 deviations, all handles freed", memory),
        ],
    }
}
