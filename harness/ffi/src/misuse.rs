//! F03: what a C program gets wrong is refused with an error, and does no harm.
use crate::abi::*;
use crate::cl::*;
use crate::world::*;
use mc::*;
use std::sync::Arc;
use ursa::ffi::bls as fb;
use ursa::ffi::cl as fc;
use ursa::ffi::cl::issuer as fi;
use ursa::ffi::cl::prover as fp;
use ursa::ffi::cl::verifier as fv;

/// An argument: what it is, and which value of it is right.
enum A {
    /// A pointer that must not be null.
    In(usize),
    /// A pointer that may be null.
    Opt(usize),
    Str(S),
    Num(usize),
    /// The length of the array before it, which must not be 0.
    Len(usize),
    Res(usize),
    /// An output that is a number or a flag.
    Val,
}
use A::{In, Len, Num, Opt, Res, Str, Val};
struct F {
    name: &'static str,
    f: usize,
    a: Vec<A>,
    /// Kept alive for the calls.
    keep: Vec<Box<dyn std::any::Any>>,
}
macro_rules! f { ($($p:tt)::+, $a:expr) => { F { name: stringify!($($p)::+), f: $($p)::+ as usize, a: $a, keep: vec![] } } }

/// The documents of one run of the protocol.
pub struct Kit {
    pub docs: std::collections::BTreeMap<&'static str, Value>,
    tails: Value,
    bls: Vec<Vec<u8>>,
}
pub fn kit() -> Arc<Kit> {
    static M: Memo<u8, Kit> = Memo::new();
    M.of(&0, || {
        let mut c = Ctx::scratch();
        fn go(c: &mut Ctx) -> Result<Kit, Violation> {
            let all = issuers();
            let i = iss2(&all[0]);
            let v = shape_known();
            let mut docs = std::collections::BTreeMap::new();
            let mut g = registry(c, &i, 3, false, false)?.expect("registry");
            let gen = rust_generator(&i, 3);
            let (n1, n2) = (nonce(c, false)?, nonce(c, false)?);
            let b = blind(c, (&i.r.pk, &i.pk), (&i.r.kcp, &i.kcp), &v, &n1, false)?.expect("blinded");
            docs.insert("d_reg", jval(&g.reg.r));
            let a = SignArgs { prover_id: PROVER_ID, b: &b, n1: &n1, n2: &n2, v: known(&v), pk: (&i.r.pk, &i.pk), sk: (&i.r.sk, &i.sk) };
            let (mut sig, scp, delta) = sign(c, &a, Some((&mut g, 2, 3, None)), false)?.expect("signed");
            let delta = delta.expect("delta");
            docs.insert("d_sig_new", jval(&sig.r));
            docs.insert("d_reg2", jval(&g.reg.r));
            let w = witness(c, &g, 2, 3, &delta, None)?.expect("witness");
            assert!(process(c, &mut sig, &v, &scp, &b.1, (&i.r.pk, &i.pk), &n2, (Some(&g.pubk), Some(&g.reg), Some(&w)))?);
            let np = nonce(c, false)?;
            let p = P2 { i: &i, schema: (&i.r.schema, &i.schema), sig: &sig, v: v.clone(), req: req(&["name"], &[("age", "GE", 18)]), rev: Some((&g.reg, &w)) };
            let p = proof(c, &[p], &[], &np, false)?.expect("proof");
            let ms = ursa::cl::prover::Prover::new_master_secret().expect("secret");
            for (k, x) in vec![("d_pk", jval(&i.r.pk)), ("d_sk", jval(&i.r.sk)), ("d_kcp", jval(&i.r.kcp)), ("d_rkp", jval(&g.pubk.r)), ("d_rks", jval(&g.privk.r)), ("d_gen", gen), ("d_sig", jval(&sig.r)), ("d_scp", jval(&scp.r)), ("d_delta", jval(&delta.r)),
                ("d_ms", jval(&ms)), ("d_bs", jval(&b.0.r)), ("d_bf", jval(&b.1.r)), ("d_bp", jval(&b.2.r)), ("d_proof", jval(&p.own)), ("d_nonce", jval(&n1.r)), ("d_nonce2", jval(&n2.r)), ("d_nonce3", jval(&np.r))] {
                docs.insert(k, x);
            }
            Ok(Kit { docs, tails: Value::Array(g.tails.r.iter().map(|t| jval(t)).collect()), bls: bls_kit() })
        }
        match go(&mut c) { Ok(k) => k, Err(v) => panic!("the run of the protocol failed: {}", v.msg) }
    })
}
fn shape_known() -> Vals { std_vals(MS1, "28", NAME) }
fn rust_generator(i: &I2, max: u32) -> Value {
    jval(&ursa::cl::issuer::Issuer::new_revocation_registry_def(&i.r.pk, max, false).expect("registry").3)
}
fn bls_kit() -> Vec<Vec<u8>> {
    use ursa::bls::*;
    let g = Generator::new().expect("generator");
    let sk = SignKey::new(None).expect("key");
    let vk = VerKey::new(&g, &sk).expect("key");
    let pop = ProofOfPossession::new(&vk, &sk).expect("proof");
    let s = Bls::sign(b"m", &sk).expect("signature");
    let m = MultiSignature::new(&[&s, &s]).expect("multi");
    vec![g.as_bytes().to_vec(), sk.as_bytes().to_vec(), vk.as_bytes().to_vec(), pop.as_bytes().to_vec(), s.as_bytes().to_vec(), m.as_bytes().to_vec()]
}
fn new(f: usize) -> usize {
    let o = Out::new();
    assert_eq!(call(f, &[o.p()]), 0);
    o.get()
}
/// All functions that take something, with what they take.
fn table() -> Vec<&'static str> {
    vec!["tails_generator_next", "tails_generator_count", "witness_new", "witness_update", "schema_builder_new", "schema_builder_add_attr", "schema_builder_finalize", "schema_free", "non_schema_builder_new", "non_schema_builder_add_attr", "non_schema_builder_finalize", "non_schema_free",
        "values_builder_new", "add_dec_known", "add_dec_hidden", "add_dec_commitment", "values_builder_finalize", "values_free", "request_builder_new", "add_revealed_attr", "add_predicate", "request_builder_finalize", "request_free", "new_nonce",
        "new_revocation_registry_def", "sign_credential", "sign_credential_with_revoc", "from_parts", "revoke_credential", "recovery_credential", "merge", "new_master_secret", "blind", "process", "get_index", "new_proof_builder", "builder_add_common", "builder_add_request", "builder_finalize",
        "new_proof_verifier", "verifier_add_common", "verifier_add_request", "verify", "witness_free", "tail_free",
        "bls_generator_new", "bls_sign_key_new", "bls_ver_key_new", "bls_pop_new", "bls_multi_signature_new", "bls_sign", "bls_verify", "bls_verify_multi_sig", "bls_verify_pop",
        "bls_from_bytes 0", "bls_from_bytes 1", "bls_from_bytes 2", "bls_from_bytes 3", "bls_from_bytes 4", "bls_from_bytes 5", "bls_as_bytes 0", "bls_as_bytes 1", "bls_as_bytes 2", "bls_as_bytes 3", "bls_as_bytes 4", "bls_as_bytes 5", "bls_free 0", "bls_free 1", "bls_free 2", "bls_free 3", "bls_free 4", "bls_free 5",
        "new_credential_def"]
}
type B3 = (usize, usize, usize);
fn bls_fns() -> [B3; 6] {
    [(fb::ursa_bls_generator_from_bytes as usize, fb::ursa_bls_generator_as_bytes as usize, fb::ursa_bls_generator_free as usize), (fb::ursa_bls_sign_key_from_bytes as usize, fb::ursa_bls_sign_key_as_bytes as usize, fb::ursa_bls_sign_key_free as usize),
     (fb::ursa_bls_ver_key_from_bytes as usize, fb::ursa_bls_ver_key_as_bytes as usize, fb::ursa_bls_ver_key_free as usize), (fb::ursa_bls_pop_from_bytes as usize, fb::ursa_bls_pop_as_bytes as usize, fb::ursa_bls_pop_free as usize),
     (fb::ursa_bls_signature_from_bytes as usize, fb::ursa_bls_signature_as_bytes as usize, fb::ursa_bls_signature_free as usize), (fb::ursa_bls_multi_signature_from_bytes as usize, fb::ursa_bls_multi_signature_as_bytes as usize, fb::ursa_bls_multi_signature_free as usize)]
}
fn bls_h(k: &Kit, i: usize) -> H {
    let b = &k.bls[i];
    let o = Out::new();
    assert_eq!(call(bls_fns()[i].0, &[b.as_ptr() as usize, b.len(), o.p()]), 0);
    H::new(o.get(), bls_fns()[i].2)
}
fn entry(k: &Kit, name: &str) -> F {
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    macro_rules! h { ($d:ident) => { h!($d, stringify!($d)) }; ($d:ident, $n:expr) => {{ let h = $d().read(&k.docs[$n]).expect($n); let p = h.p; keep.push(Box::new(h)); p }} }
    macro_rules! k { ($x:expr) => {{ let x = $x; let p = x.p; keep.push(Box::new(x)); p }} }
    macro_rules! b { ($i:expr) => { k!(bls_h(k, $i)) } }
    let st = |t: &str| Str(s(t));
    let free = |f: usize| Res(f);
    let attrs = ["age", "name", "sex"];
    let v = shape_known();
    let rq = req(&["name"], &[("age", "GE", 18)]);
    // The tails: the context outlives the calls.
    let mut tails = || -> usize {
        let d: Vec<Value> = k.tails.as_array().unwrap().clone();
        let r: Vec<ursa::cl::Tail> = d.into_iter().map(|t| serde_json::from_value(t).expect("tail")).collect();
        let h = r.iter().map(|t| H::new(t as *const ursa::cl::Tail as usize, 0)).collect();
        let g: &'static Tails = Box::leak(Box::new(Tails { r, h }));
        Box::leak(Box::new(access(g, None))).p()
    };
    let cb = cbs();
    let mut e = match name {
        "tails_generator_next" => f!(fc::ursa_cl_tails_generator_next, vec![In(h!(d_gen)), free(fc::ursa_cl_tail_free as usize)]),
        "tails_generator_count" => f!(fc::ursa_cl_tails_generator_count, vec![In(h!(d_gen)), Val]),
        "witness_new" => f!(fc::ursa_cl_witness_new, vec![Num(2), Num(3), Num(0), In(h!(d_delta)), Num(tails()), Num(cb[0]), Num(cb[1]), free(fc::ursa_cl_witness_free as usize)]),
        "witness_update" => { let w = wit(k, tails()); f!(fc::ursa_cl_witness_update, vec![Num(2), Num(3), In(h!(d_delta)), In(k!(w)), Num(tails()), Num(cb[0]), Num(cb[1])]) }
        "witness_free" => { let w = wit(k, tails()); f!(fc::ursa_cl_witness_free, vec![In(w.taken())]) }
        "tail_free" => { let o = Out::new(); let g = h!(d_gen); assert_eq!(call(fc::ursa_cl_tails_generator_next as usize, &[g, o.p()]), 0); f!(fc::ursa_cl_tail_free, vec![In(o.get())]) }
        "schema_builder_new" => f!(fc::ursa_cl_credential_schema_builder_new, vec![Res(0)]),
        "schema_builder_add_attr" => f!(fc::ursa_cl_credential_schema_builder_add_attr, vec![In(new(fc::ursa_cl_credential_schema_builder_new as usize)), st("a")]),
        "schema_builder_finalize" => f!(fc::ursa_cl_credential_schema_builder_finalize, vec![In(new(fc::ursa_cl_credential_schema_builder_new as usize)), free(fc::ursa_cl_credential_schema_free as usize)]),
        "schema_free" => f!(fc::ursa_cl_credential_schema_free, vec![In(c_schema(&attrs).taken())]),
        "non_schema_builder_new" => f!(fc::ursa_cl_non_credential_schema_builder_new, vec![Res(0)]),
        "non_schema_builder_add_attr" => f!(fc::ursa_cl_non_credential_schema_builder_add_attr, vec![In(new(fc::ursa_cl_non_credential_schema_builder_new as usize)), st("a")]),
        "non_schema_builder_finalize" => f!(fc::ursa_cl_non_credential_schema_builder_finalize, vec![In(new(fc::ursa_cl_non_credential_schema_builder_new as usize)), free(fc::ursa_cl_non_credential_schema_free as usize)]),
        "non_schema_free" => f!(fc::ursa_cl_non_credential_schema_free, vec![In(c_non(&["m"]).taken())]),
        "values_builder_new" => f!(fc::ursa_cl_credential_values_builder_new, vec![Res(0)]),
        "add_dec_known" => f!(fc::ursa_cl_credential_values_builder_add_dec_known, vec![In(new(fc::ursa_cl_credential_values_builder_new as usize)), st("a"), st("5")]),
        "add_dec_hidden" => f!(fc::ursa_cl_credential_values_builder_add_dec_hidden, vec![In(new(fc::ursa_cl_credential_values_builder_new as usize)), st("a"), st("5")]),
        "add_dec_commitment" => f!(fc::ursa_cl_credential_values_builder_add_dec_commitment, vec![In(new(fc::ursa_cl_credential_values_builder_new as usize)), st("a"), st("5"), st("6")]),
        "values_builder_finalize" => f!(fc::ursa_cl_credential_values_builder_finalize, vec![In(new(fc::ursa_cl_credential_values_builder_new as usize)), free(fc::ursa_cl_credential_values_free as usize)]),
        "values_free" => f!(fc::ursa_cl_credential_values_free, vec![In(c_values(&v).taken())]),
        "request_builder_new" => f!(fc::ursa_cl_sub_proof_request_builder_new, vec![Res(0)]),
        "add_revealed_attr" => f!(fc::ursa_cl_sub_proof_request_builder_add_revealed_attr, vec![In(new(fc::ursa_cl_sub_proof_request_builder_new as usize)), st("a")]),
        "add_predicate" => f!(fc::ursa_cl_sub_proof_request_builder_add_predicate, vec![In(new(fc::ursa_cl_sub_proof_request_builder_new as usize)), st("a"), st("GE"), Num(5)]),
        "request_builder_finalize" => f!(fc::ursa_cl_sub_proof_request_builder_finalize, vec![In(new(fc::ursa_cl_sub_proof_request_builder_new as usize)), free(fc::ursa_cl_sub_proof_request_free as usize)]),
        "request_free" => f!(fc::ursa_cl_sub_proof_request_free, vec![In(c_request(&rq).taken())]),
        "new_nonce" => f!(fc::ursa_cl_new_nonce, vec![free(d_nonce().free)]),
        "new_credential_def" => f!(fi::ursa_cl_issuer_new_credential_def, vec![In(k!(c_schema(&attrs))), In(k!(c_non(&["master_secret"]))), Num(0), free(d_pk().free), free(d_sk().free), free(d_kcp().free)]),
        "new_revocation_registry_def" => f!(fi::ursa_cl_issuer_new_revocation_registry_def, vec![In(h!(d_pk)), Num(3), Num(1), free(d_rkp().free), free(d_rks().free), free(d_reg().free), free(d_gen().free)]),
        "sign_credential" => f!(fi::ursa_cl_issuer_sign_credential, vec![st(PROVER_ID), In(h!(d_bs)), In(h!(d_bp)), In(h!(d_nonce)), In(h!(d_nonce, "d_nonce2")), In(k!(c_values(&known(&v)))), In(h!(d_pk)), In(h!(d_sk)), free(d_sig().free), free(d_scp().free)]),
        "sign_credential_with_revoc" => f!(fi::ursa_cl_issuer_sign_credential_with_revoc, vec![st(PROVER_ID), In(h!(d_bs)), In(h!(d_bp)), In(h!(d_nonce)), In(h!(d_nonce, "d_nonce2")), In(k!(c_values(&known(&v)))), In(h!(d_pk)), In(h!(d_sk)), Num(2), Num(3), Num(0), In(h!(d_reg)), In(h!(d_rks)),
            Num(tails()), Num(cb[0]), Num(cb[1]), free(d_sig().free), free(d_scp().free), free(d_delta().free)]),
        "from_parts" => { static ONE: [u32; 1] = [2]; let p = ONE.as_ptr() as usize; f!(fi::ursa_revocation_registry_delta_from_parts, vec![Opt(h!(d_reg)), In(h!(d_reg, "d_reg2")), In(p), Num(1), In(p), Num(0), free(d_delta().free)]) }
        "revoke_credential" => f!(fi::ursa_cl_issuer_revoke_credential, vec![In(h!(d_reg, "d_reg2")), Num(3), Num(2), Num(tails()), Num(cb[0]), Num(cb[1]), free(d_delta().free)]),
        "recovery_credential" => f!(fi::ursa_cl_issuer_recovery_credential, vec![In(h!(d_reg)), Num(3), Num(2), Num(tails()), Num(cb[0]), Num(cb[1]), free(d_delta().free)]),
        "merge" => {
            let r = h!(d_reg, "d_reg2");
            let o = Out::new();
            assert_eq!(call(fi::ursa_cl_issuer_revoke_credential as usize, &[r, 3, 2, tails(), cb[0], cb[1], o.p()]), 0);
            f!(fi::ursa_cl_issuer_merge_revocation_registry_deltas, vec![In(h!(d_delta)), In(k!(H::new(o.get(), d_delta().free))), free(d_delta().free)])
        }
        "new_master_secret" => f!(fp::ursa_cl_prover_new_master_secret, vec![free(d_ms().free)]),
        "blind" => f!(fp::ursa_cl_prover_blind_credential_secrets, vec![In(h!(d_pk)), In(h!(d_kcp)), In(k!(c_values(&v))), In(h!(d_nonce)), free(d_bs().free), free(d_bf().free), free(d_bp().free)]),
        "process" => { let w = wit(k, tails()); f!(fp::ursa_cl_prover_process_credential_signature, vec![In(h!(d_sig, "d_sig_new")), In(k!(c_values(&v))), In(h!(d_scp)), In(h!(d_bf)), In(h!(d_pk)), In(h!(d_nonce, "d_nonce2")), Opt(h!(d_rkp)), Opt(h!(d_reg, "d_reg2")), Opt(k!(w))]) }
        "get_index" => f!(fp::ursa_cl_prover_get_credential_revocation_index, vec![In(h!(d_sig)), Val]),
        "new_proof_builder" => f!(fp::ursa_cl_prover_new_proof_builder, vec![Res(0)]),
        "builder_add_common" => f!(fp::ursa_cl_proof_builder_add_common_attribute, vec![In(new(fp::ursa_cl_prover_new_proof_builder as usize)), st("a")]),
        "builder_add_request" => { let w = wit(k, tails()); f!(fp::ursa_cl_proof_builder_add_sub_proof_request, vec![In(new(fp::ursa_cl_prover_new_proof_builder as usize)), In(k!(c_request(&rq))), In(k!(c_schema(&attrs))), In(k!(c_non(&["master_secret"]))), In(h!(d_sig)), In(k!(c_values(&v))), In(h!(d_pk)), Opt(h!(d_reg, "d_reg2")), Opt(k!(w))]) }
        "builder_finalize" => {
            let (b, w) = (new(fp::ursa_cl_prover_new_proof_builder as usize), wit(k, tails()));
            assert_eq!(call(fp::ursa_cl_proof_builder_add_sub_proof_request as usize, &[b, k!(c_request(&rq)), k!(c_schema(&attrs)), k!(c_non(&["master_secret"])), h!(d_sig), k!(c_values(&v)), h!(d_pk), h!(d_reg, "d_reg2"), k!(w)]), 0);
            f!(fp::ursa_cl_proof_builder_finalize, vec![In(b), In(h!(d_nonce, "d_nonce3")), free(d_proof().free)])
        }
        "new_proof_verifier" => f!(fv::ursa_cl_verifier_new_proof_verifier, vec![Res(0)]),
        "verifier_add_common" => f!(fv::ursa_cl_proof_verifier_add_common_attribute, vec![In(new(fv::ursa_cl_verifier_new_proof_verifier as usize)), st("a")]),
        "verifier_add_request" => f!(fv::ursa_cl_proof_verifier_add_sub_proof_request, vec![In(new(fv::ursa_cl_verifier_new_proof_verifier as usize)), In(k!(c_request(&rq))), In(k!(c_schema(&attrs))), In(k!(c_non(&["master_secret"]))), In(h!(d_pk)), Opt(h!(d_rkp)), Opt(h!(d_reg, "d_reg2"))]),
        "verify" => {
            let b = new(fv::ursa_cl_verifier_new_proof_verifier as usize);
            assert_eq!(call(fv::ursa_cl_proof_verifier_add_sub_proof_request as usize, &[b, k!(c_request(&rq)), k!(c_schema(&attrs)), k!(c_non(&["master_secret"])), h!(d_pk), h!(d_rkp), h!(d_reg, "d_reg2")]), 0);
            f!(fv::ursa_cl_proof_verifier_verify, vec![In(b), In(h!(d_proof)), In(h!(d_nonce, "d_nonce3")), Val])
        }
        "bls_generator_new" => f!(fb::ursa_bls_generator_new, vec![free(bls_fns()[0].2)]),
        "bls_sign_key_new" => { static SEED: [u8; 32] = [9; 32]; f!(fb::ursa_bls_sign_key_new, vec![Opt(SEED.as_ptr() as usize), Len(32), free(bls_fns()[1].2)]) }
        "bls_ver_key_new" => f!(fb::ursa_bls_ver_key_new, vec![In(b!(0)), In(b!(1)), free(bls_fns()[2].2)]),
        "bls_pop_new" => f!(fb::ursa_bls_pop_new, vec![In(b!(2)), In(b!(1)), free(bls_fns()[3].2)]),
        "bls_multi_signature_new" => { let a: Box<[usize; 2]> = Box::new([b!(4), b!(4)]); let p = a.as_ptr() as usize; keep.push(a); f!(fb::ursa_bls_multi_signature_new, vec![In(p), Len(2), free(bls_fns()[5].2)]) }
        "bls_sign" => f!(fb::ursa_bls_sign, vec![In(b"m".as_ptr() as usize), Len(1), In(b!(1)), free(bls_fns()[4].2)]),
        "bls_verify" => f!(fb::ursa_bls_verify, vec![In(b!(4)), In(b"m".as_ptr() as usize), Len(1), In(b!(2)), In(b!(0)), Val]),
        "bls_verify_multi_sig" => { let a: Box<[usize; 2]> = Box::new([b!(2), b!(2)]); let p = a.as_ptr() as usize; keep.push(a); f!(fb::ursa_bls_verify_multi_sig, vec![In(b!(5)), In(b"m".as_ptr() as usize), Len(1), In(p), Len(2), In(b!(0)), Val]) }
        "bls_verify_pop" => f!(fb::ursa_bls_verify_pop, vec![In(b!(3)), In(b!(2)), In(b!(0)), Val]),
        x => {
            let i = x[x.len() - 1..].parse::<usize>().expect("kind");
            let t = bls_fns()[i];
            let (name, f, a) = if x.starts_with("bls_from") { let b = k.bls[i].clone(); let (p, n) = (b.as_ptr() as usize, b.len()); keep.push(Box::new(b)); ("bls_from_bytes", t.0, vec![In(p), Len(n), free(t.2)]) }
                else if x.starts_with("bls_as") { ("bls_as_bytes", t.1, vec![In(b!(i)), Val, Val]) } else { ("bls_free", t.2, vec![In(bls_h(k, i).taken())]) };
            F { name, f, a, keep: vec![] }
        }
    };
    e.keep = keep;
    e
}
fn wit(k: &Kit, ctx: usize) -> H {
    let d = d_delta().read(&k.docs["d_delta"]).expect("delta");
    let o = Out::new();
    let cb = cbs();
    assert_eq!(call(fc::ursa_cl_witness_new as usize, &[2, 3, 0, d.p, ctx, cb[0], cb[1], o.p()]), 0);
    H::new(o.get(), fc::ursa_cl_witness_free as usize)
}
/// Forgets the last error of this thread for another one, to see whether a call sets it.
fn mark_error(pointer: bool) -> String {
    let o = Out::new();
    let text = s("marker");
    let e = call(d_nonce().from, &[if pointer { 0 } else { text.p() }, o.p()]);
    assert!(e != 0);
    last_error().expect("an error")
}
/// What can be wrong with one argument.
#[derive(Clone, Debug)]
enum Wrong { Null, Empty, NoText, Zero, NullWithin(usize) }

fn nulls(c: &mut Ctx) -> R {
    let names = table();
    // finding safe primes takes long: the last function is called with what is wrong only
    let name = names[c.choose("function", names.len())];
    let k = kit();
    let e = entry(&k, name);
    let mut spots: Vec<(usize, Wrong)> = vec![];
    for (i, a) in e.a.iter().enumerate() {
        match a {
            In(_) | Res(_) | Val => spots.push((i, Wrong::Null)),
            Str(_) => spots.extend(vec![(i, Wrong::Null), (i, Wrong::Empty), (i, Wrong::NoText)]),
            Len(_) => { spots.push((i, Wrong::Zero)); if name == "bls_multi_signature_new" || (name == "bls_verify_multi_sig" && i == 4) { spots.extend(vec![(i - 1, Wrong::NullWithin(0)), (i - 1, Wrong::NullWithin(1))]) } }
            _ => {}
        }
    }
    let x = c.choose("wrong", spots.len());
    let y = x + c.choose("also wrong", spots.len() - x);
    c.state(&(name, x, y));
    let what = format!("{} ({}) with {:?} and {:?}", e.name, name, spots[x], spots[y]);
    let noutf = [0x61u8, 0xff, 0];
    let empty = [0u8];
    let outs: Vec<Option<Out>> = e.a.iter().map(|a| match a { Res(_) | Val => Some(Out::new()), _ => None }).collect();
    let args = |bad: bool| -> Vec<usize> {
        e.a.iter().enumerate().map(|(i, a)| {
            let right = match a { In(p) | Opt(p) | Num(p) | Len(p) => *p, Str(s) => s.p(), Res(_) | Val => outs[i].as_ref().unwrap().p() };
            let w = [x, y].iter().map(|j| &spots[*j]).find(|s| s.0 == i);
            match w {
                Some(w) if bad => match w.1 { Wrong::Null | Wrong::Zero => 0, Wrong::Empty => empty.as_ptr() as usize, Wrong::NoText => noutf.as_ptr() as usize, Wrong::NullWithin(_) => right },
                _ => right,
            }
        }).collect()
    };
    let within: Vec<(usize, usize)> = [x, y].iter().filter_map(|j| match (&spots[*j].1, &e.a[spots[*j].0]) { (Wrong::NullWithin(n), In(p)) => Some((*p, *n)), _ => None }).collect();
    let old: Vec<usize> = within.iter().map(|(p, n)| unsafe { std::ptr::replace((*p as *mut usize).add(*n), 0) }).collect();
    let before = mark_error(false);
    c.step();
    let code = call(e.f, &args(true));
    for ((p, n), o) in within.iter().zip(&old).rev() { unsafe { *(*p as *mut usize).add(*n) = *o } }
    c.ensure(code != 0, "accepted", || format!("{}: success", what))?;
    c.ensure(outs.iter().flatten().all(|o| o.untouched()), "untouched", || format!("{}: an output is set although the call failed", what))?;
    let m = last_error();
    c.ensure(m.is_some() && m != Some(before), "error", || format!("{}: the last error is {:?}, one from before", what, m))?;
    // nothing was harmed: the same call with the right arguments succeeds
    c.outcome("refused");
    if name == "new_credential_def" { return Ok(()) }
    c.step();
    let code = call(e.f, &args(false));
    c.ensure(code == 0, "harmed", || format!("{}: afterwards the right call gives error {} ({:?})", what, code, last_error()))?;
    for (i, a) in e.a.iter().enumerate() {
        let o = match &outs[i] { Some(o) => o, None => continue };
        c.ensure(!o.untouched(), "output", || format!("{}: afterwards an output is not set", what))?;
        if let Res(f) = a { drop(H::new(o.get(), *f)) }
    }
    Ok(())
}
/// Documents, altered: what the C API reads is what the Rust API reads.
fn documents(c: &mut Ctx) -> R {
    let all = all_docs();
    let k = kit();
    let d = all[c.choose("document", all.len())];
    let of = all[c.choose("text of", all.len())];
    let v = &k.docs[of.name];
    let own = of.name == d.name;
    let text = v.to_string();
    let leaves = jsonmut::leaves(v);
    let places: Vec<String> = { let mut p = jsonmut::containers(v); p.extend(leaves.clone()); p.into_iter().filter(|p| !p.is_empty()).collect() };
    let t = match if own { c.choose("edit", 7) } else { 0 } {
        0 => text,
        1 => { let n = c.choose("cut after", 16) * text.len() / 16; text[..n].to_string() }
        2 | 3 if places.is_empty() => c.pick("instead", &["1", "[]", "{}", "true", "\"0\"", "\"-1\"", "\"x\"", "1e300", "\"\\u0000\""]).to_string(),
        2 => { let p = &places[c.choose("without", places.len())]; jsonmut::without(v, p).to_string() }
        3 => { let p = &places[c.choose("at", places.len())]; let n = c.pick("instead", &[json!(null), json!(1), json!(-1), json!("x"), json!(""), json!([]), json!({}), json!(true), json!("0"), json!(1e300)]); jsonmut::with(v, p, n).to_string() }
        4 => text + c.pick("after it", &[" ", "x", "{}", "\u{1}"]),
        5 => c.pick("text", &["null", "1", "\"\"", "[]", "{}", " ", "\u{feff}{}", "{\"a\":"]).to_string(),
        _ => { let mut o = v.clone(); if let Value::Object(m) = &mut o { m.insert("more".into(), json!(1)); } o.to_string() }
    };
    c.state(&(d.name, &t));
    c.step();
    let want = match guard(|| (d.rust)(&t)) { Ok(w) => w, Err(_) => { c.outcome("panic"); return Ok(()) } };
    let o = Out::new();
    let before = mark_error(true);
    let txt = s(&t);
    let code = call(d.from, &[txt.p(), o.p()]);
    match want {
        Ok(w) => {
            c.outcome("read");
            c.ensure(code == 0 && !o.untouched(), "refused", || format!("{}: the Rust API reads {}, the C API gives error {}", d.name, short(&t), code))?;
            let h = H::new(o.get(), d.free);
            let got = d.write(h.p);
            c.ensure(got.as_ref().map(norm) == Ok(norm(&w)), "differs", || format!("{}: {} is read as {:?} instead of {}", d.name, short(&t), got.map(|g| short(&g.to_string())), short(&w.to_string())))?;
            // null pointers
            c.ensure(call(d.to, &[h.p, 0]) != 0 && call(d.from, &[txt.p(), 0]) != 0 && call(d.free, &[0]) != 0, "null", || format!("{}: a null pointer is taken", d.name))?;
            let o = Out::new();
            c.ensure(call(d.to, &[0, o.p()]) != 0 && call(d.from, &[0, o.p()]) != 0 && o.untouched(), "null", || format!("{}: a null pointer is taken", d.name))
        }
        Err(_) => {
            c.outcome("refused");
            c.ensure(code != 0 && o.untouched(), "accepted", || format!("{}: the Rust API refuses {}, the C API returns {}", d.name, short(&t), code))?;
            let m = last_error();
            c.ensure(m.is_some() && m != Some(before), "error", || format!("{}: the last error is {:?}, one from before", d.name, m))
        }
    }
}
/// The last error: kept until the next one, of this thread only.
fn errors(c: &mut Ctx) -> R {
    use std::sync::mpsc::channel;
    fn op(k: usize) -> Option<String> {
        let o = Out::new();
        match k {
            0 => { call(d_nonce().from, &[s("x").p(), o.p()]); }
            1 => { call(d_pk().from, &[s("{}").p(), o.p()]); }
            2 => { call(fc::ursa_cl_credential_schema_builder_add_attr as usize, &[0, s("a").p()]); }
            3 => { let b = new(fc::ursa_cl_credential_values_builder_new as usize); call(fc::ursa_cl_credential_values_builder_add_dec_known as usize, &[b, s("a").p(), s("x").p()]); let f = Out::new(); call(fc::ursa_cl_credential_values_builder_finalize as usize, &[b, f.p()]); call(fc::ursa_cl_credential_values_free as usize, &[f.get()]); }
            4 => { call(fc::ursa_cl_new_nonce as usize, &[o.p()]); call(d_nonce().free, &[o.get()]); }
            5 => { call(fb::ursa_bls_sign_key_from_bytes as usize, &[b"x".as_ptr() as usize, 0, o.p()]); }
            _ => {}
        }
        last_error()
    }
    // what each leaves, on a thread of its own
    static M: Memo<u8, Vec<Option<String>>> = Memo::new();
    let alone = M.of(&0, || (0..7).map(|k| std::thread::spawn(move || op(k)).join().expect("thread")).collect());
    c.ensure(alone[4].is_none() && alone[6].is_none() && [0, 1, 2, 3, 5].iter().all(|k| alone[*k].is_some()), "error", || format!("the errors of single calls are {:?}", alone))?;
    let mut ends = vec![];
    for _ in 0..2 {
        let (tx, rx) = channel::<usize>();
        let (tr, rr) = channel();
        std::thread::spawn(move || while let Ok(k) = rx.recv() { let _ = tr.send(op(k)); });
        ends.push((tx, rr));
    }
    let n = c.q(3, 4);
    let mut model: [Option<String>; 2] = [None, None];
    let mut done = vec![];
    for _ in 0..n {
        let t = c.choose("thread", 2);
        let k = c.choose("call", 7);
        done.push((t, k));
        c.step();
        ends[t].0.send(k).expect("thread");
        let got = ends[t].1.recv().expect("thread");
        if let Some(m) = &alone[k] { model[t] = Some(m.clone()) }
        c.state(&(t, k, &model));
        c.ensure(got == model[t], "error", || format!("after {:?} the last error of thread {} is {:?} instead of {:?}", done, t, got, model[t]))?;
    }
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution makes a call through the C API with one or two things wrong, checks that it is refused, that no output is set and that the error is set, and then makes the same call correctly with the same objects; texts of documents are read by the C and the Rust API; calls on two threads are followed by a model of the last error. An execution that ends the process is a violation.".into(),
        assumptions: vec!["callbacks are not null".into(), "null pointers of references in the typed functions for ed25519 and encryption cannot be expressed in their types".into()],
        scenarios: vec![
            Scenario::new("null", "73 functions x all pairs of: a null pointer in any place, empty strings, strings that are no text, empty arrays, null within arrays", nulls),
            Scenario::new("documents", "16 kinds of documents x texts of each kind, and of its own: 16 cuts, every part left out, every part replaced by 10 values, text before, after and more parts", documents),
            Scenario::new("errors", "all sequences of 3 (4) of 7 calls on two threads", errors),
        ],
    }
}
