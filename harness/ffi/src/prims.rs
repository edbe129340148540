//! F02: short signatures, ed25519 and authenticated encryption through the C API do what they do through the Rust API.
use crate::abi::*;
use crate::cl::twice;
use ffi_support::{ByteBuffer, ExternError, FfiStr};
use mc::*;
use std::ffi::CString;
use std::str::FromStr;
use ursa::bls::*;
use ursa::encryption::symm::prelude::*;
use ursa::errors::prelude::*;
use ursa::ffi::bls as fb;
use ursa::ffi::encryption as fe;
use ursa::ffi::signatures::ed25519 as fs;
use ursa::ffi::ByteArray;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::ed25519::{self, Ed25519Sha512};
use ursa::signatures::SignatureScheme;

type UR<T> = Result<T, UrsaCryptoError>;
/// A kind of object of the short signatures.
struct Kind {
    name: &'static str,
    from: usize,
    bytes: usize,
    free: usize,
    rust: fn(&[u8]) -> UR<Vec<u8>>,
}
macro_rules! kinds { ($($id:ident : $t:ident, $from:ident, $bytes:ident, $free:ident;)*) => {
    $(fn $id() -> Kind { Kind { name: stringify!($t), from: fb::$from as usize, bytes: fb::$bytes as usize, free: fb::$free as usize, rust: |b| $t::from_bytes(b).map(|x| x.as_bytes().to_vec()) } })*
} }
kinds! {
    k_gen: Generator, ursa_bls_generator_from_bytes, ursa_bls_generator_as_bytes, ursa_bls_generator_free;
    k_sk: SignKey, ursa_bls_sign_key_from_bytes, ursa_bls_sign_key_as_bytes, ursa_bls_sign_key_free;
    k_vk: VerKey, ursa_bls_ver_key_from_bytes, ursa_bls_ver_key_as_bytes, ursa_bls_ver_key_free;
    k_pop: ProofOfPossession, ursa_bls_pop_from_bytes, ursa_bls_pop_as_bytes, ursa_bls_pop_free;
    k_sig: Signature, ursa_bls_signature_from_bytes, ursa_bls_signature_as_bytes, ursa_bls_signature_free;
    k_multi: MultiSignature, ursa_bls_multi_signature_from_bytes, ursa_bls_multi_signature_as_bytes, ursa_bls_multi_signature_free;
}
pub struct B<T> {
    pub r: T,
    pub h: H,
}
fn bytes_of(k: &Kind, h: usize) -> Result<Vec<u8>, usize> {
    let (p, n) = (Out::new(), Out::new());
    match call(k.bytes, &[h, p.p(), n.p()]) {
        0 => Ok(unsafe { std::slice::from_raw_parts(p.get() as *const u8, n.get()) }.to_vec()),
        e => Err(e),
    }
}
/// The object of the C API at `o`, which must be the one of the Rust API.
fn made<T>(c: &mut Ctx, what: &str, r: T, bytes: &[u8], k: &Kind, o: &Out, turn: bool) -> Result<B<T>, Violation> {
    let mut h = H::new(o.get(), k.free);
    let got = bytes_of(k, h.p);
    c.ensure(got.as_ref().map(|b| &b[..]) == Ok(bytes), "differs", || format!("{}: the C API's object is {:?} instead of {}", what, got.map(|g| hexs(&g)), hexs(bytes)))?;
    if turn {
        let o = Out::new();
        let e = call(k.from, &[bytes.as_ptr() as usize, bytes.len(), o.p()]);
        c.ensure(e == 0, "turn", || format!("{}: the C API does not read what it has written: error {}", what, e))?;
        h = H::new(o.get(), k.free);
        let got = bytes_of(k, h.p);
        c.ensure(got.as_ref().map(|b| &b[..]) == Ok(bytes), "turn", || format!("{}: read again it is {:?} instead of {}", what, got.map(|g| hexs(&g)), hexs(bytes)))?;
    }
    Ok(B { r, h })
}
macro_rules! make { ($c:expr, $what:expr, $k:expr, $turn:expr, || $r:expr, |$o:ident| $call:expr) => {{
    let $o = Out::new();
    match twice($c, $what, || $r, || $call, &[&$o], false)? { Some(r) => { let b = r.as_bytes().to_vec(); Some(made($c, $what, r, &b, &$k, &$o, $turn)?) } None => None }
}} }
/// A verdict of both APIs.
fn verdict(c: &mut Ctx, what: &str, r: impl FnOnce() -> UR<bool>, f: impl FnOnce(usize) -> usize) -> Result<Option<bool>, Violation> {
    let flag: Box<[u8; 8]> = Box::new([0x5a; 8]);
    let p = flag.as_ptr() as usize;
    let r = twice(c, what, r, || f(p), &[], false)?;
    let got = unsafe { std::ptr::read_volatile(p as *const u8) };
    match r {
        Some(r) => c.ensure(got == r as u8 && flag[1..] == [0x5a; 7], "verdict", || format!("{}: the verdict of the C API is {} instead of {}", what, got, r))?,
        None => c.ensure(got == 0x5a, "untouched", || format!("{}: a verdict although the call failed", what))?,
    }
    Ok(r)
}
fn bls_protocol(c: &mut Ctx) -> R {
    let turn = c.flag("through bytes");
    let seeds: Vec<Option<Vec<u8>>> = vec![None, Some((0..32).collect()), Some(vec![7; 33]), Some(vec![7; 31]), Some(vec![1]), Some(vec![0xff; 64]), Some(vec![0xff; 32]), Some(vec![0; 32])];
    let n = c.choose("signers", c.q(3, 4)) + 1;
    let first = c.choose("seed", if n == 1 { seeds.len() } else { 2 });
    let msgs: [&[u8]; 4] = [b"m", b"another message", &[0, 1, 2], &[0xff; 300]];
    let m = msgs[c.choose("message", 4)];
    let dev = c.choose("deviation", 8);
    c.state(&(turn, n, first, m, dev));
    let gen = make!(c, "generator", k_gen(), turn, || Generator::new(), |o| call(fb::ursa_bls_generator_new as usize, &[o.p()])).expect("a generator");
    let gen2 = make!(c, "a second generator", k_gen(), turn, || Generator::new(), |o| call(fb::ursa_bls_generator_new as usize, &[o.p()])).expect("a generator");
    let (mut sks, mut vks, mut sigs) = (vec![], vec![], vec![]);
    for i in 0..n {
        let seed = seeds[(first + i) % seeds.len()].clone();
        let (p, l) = seed.as_ref().map_or((0, 0), |s| (s.as_ptr() as usize, s.len()));
        let sk = match make!(c, "sign key", k_sk(), turn, || SignKey::new(seed.as_ref().map(|s| &s[..])), |o| call(fb::ursa_bls_sign_key_new as usize, &[p, l, o.p()])) { Some(s) => s, None => { c.outcome("no key"); return Ok(()) } };
        let vk = make!(c, "ver key", k_vk(), turn, || VerKey::new(&gen.r, &sk.r), |o| call(fb::ursa_bls_ver_key_new as usize, &[gen.h.p, sk.h.p, o.p()])).expect("a key");
        let pop = make!(c, "proof of possession", k_pop(), turn, || ProofOfPossession::new(&vk.r, &sk.r), |o| call(fb::ursa_bls_pop_new as usize, &[vk.h.p, sk.h.p, o.p()])).expect("a proof");
        let g = if dev == 1 { &gen2 } else { &gen };
        let other: Option<&B<VerKey>> = vks.last();
        let v = if dev == 2 { other.unwrap_or(&vk) } else { &vk };
        verdict(c, "verify_pop", || Bls::verify_proof_of_posession(&pop.r, &v.r, &g.r), |f| call(fb::ursa_bls_verify_pop as usize, &[pop.h.p, v.h.p, g.h.p, f]))?;
        let mm = if dev == 3 && i + 1 == n { &m[1..] } else { m };
        let sig = match make!(c, "signature", k_sig(), turn, || if mm.is_empty() { Err(err_msg(UrsaCryptoErrorKind::InvalidParam(2), "Array length must be greater than 0")) } else { Bls::sign(mm, &sk.r) }, |o| call(fb::ursa_bls_sign as usize, &[mm.as_ptr() as usize, mm.len(), sk.h.p, o.p()])) { Some(s) => s, None => return Ok(()) };
        let r = verdict(c, "verify", || Bls::verify(&sig.r, m, &v.r, &g.r), |f| call(fb::ursa_bls_verify as usize, &[sig.h.p, m.as_ptr() as usize, m.len(), v.h.p, g.h.p, f]))?;
        if dev == 0 { c.ensure(r == Some(true), "complete", || "an honest signature is refused".into())? }
        sks.push(sk);
        vks.push(vk);
        sigs.push(sig);
    }
    // the multi-signature, of all or of all but one, in two orders
    let mut take: Vec<usize> = (0..n).collect();
    if dev == 4 { take.pop(); }
    if dev == 5 { take.reverse(); }
    if dev == 6 { take.push(0); }
    let rs: Vec<&Signature> = take.iter().map(|i| &sigs[*i].r).collect();
    let hs: Vec<usize> = take.iter().map(|i| sigs[*i].h.p).collect();
    if hs.is_empty() { return Ok(()) }
    let multi = match make!(c, "multi-signature", k_multi(), turn, || MultiSignature::new(&rs), |o| call(fb::ursa_bls_multi_signature_new as usize, &[hs.as_ptr() as usize, hs.len(), o.p()])) { Some(m) => m, None => return Ok(()) };
    let (vr, vh): (Vec<&VerKey>, Vec<usize>) = (vks.iter().map(|v| &v.r).collect(), vks.iter().map(|v| v.h.p).collect());
    let g = if dev == 1 { &gen2 } else { &gen };
    let mm = if dev == 7 { &b"not it"[..] } else { m };
    let r = verdict(c, "verify_multi_sig", || Bls::verify_multi_sig(&multi.r, mm, &vr, &g.r), |f| call(fb::ursa_bls_verify_multi_sig as usize, &[multi.h.p, mm.as_ptr() as usize, mm.len(), vh.as_ptr() as usize, vh.len(), g.h.p, f]))?;
    c.outcome(&format!("multi-signature {:?}", r));
    if [0, 5].contains(&dev) { c.ensure(r == Some(true), "complete", || "an honest multi-signature is refused".into())? }
    Ok(())
}
/// All functions of the short signatures with one key, which is secret.
pub fn honest(seed: usize, m: &[u8], turn: bool) -> R {
    let c = &mut Ctx::scratch();
    let b: Vec<u8> = (0..32).map(|i| 200 - i * seed as u8).collect();
    let seed = if seed == 0 { None } else { Some(&b[..]) };
    if seed.is_some() { crate::logs::secret_bytes("the seed", &b) }
    let gen = make!(c, "generator", k_gen(), turn, || Generator::new(), |o| call(fb::ursa_bls_generator_new as usize, &[o.p()])).expect("a generator");
    let (p, l) = seed.map_or((0, 0), |s| (s.as_ptr() as usize, s.len()));
    let sk = make!(c, "sign key", k_sk(), turn, || { let k = SignKey::new(seed)?; crate::logs::secret_bytes("the sign key", k.as_bytes()); Ok(k) }, |o| call(fb::ursa_bls_sign_key_new as usize, &[p, l, o.p()])).expect("a key");
    let vk = make!(c, "ver key", k_vk(), turn, || VerKey::new(&gen.r, &sk.r), |o| call(fb::ursa_bls_ver_key_new as usize, &[gen.h.p, sk.h.p, o.p()])).expect("a key");
    let pop = make!(c, "proof of possession", k_pop(), turn, || ProofOfPossession::new(&vk.r, &sk.r), |o| call(fb::ursa_bls_pop_new as usize, &[vk.h.p, sk.h.p, o.p()])).expect("a proof");
    let sig = make!(c, "signature", k_sig(), turn, || Bls::sign(m, &sk.r), |o| call(fb::ursa_bls_sign as usize, &[m.as_ptr() as usize, m.len(), sk.h.p, o.p()])).expect("a signature");
    let hs = [sig.h.p, sig.h.p];
    make!(c, "multi-signature", k_multi(), turn, || MultiSignature::new(&[&sig.r, &sig.r]), |o| call(fb::ursa_bls_multi_signature_new as usize, &[hs.as_ptr() as usize, 2, o.p()]));
    verdict(c, "verify_pop", || Bls::verify_proof_of_posession(&pop.r, &vk.r, &gen.r), |f| call(fb::ursa_bls_verify_pop as usize, &[pop.h.p, vk.h.p, gen.h.p, f]))?;
    verdict(c, "verify", || Bls::verify(&sig.r, m, &vk.r, &gen.r), |f| call(fb::ursa_bls_verify as usize, &[sig.h.p, m.as_ptr() as usize, m.len(), vk.h.p, gen.h.p, f]))?;
    Ok(())
}
/// The bytes of objects: read by both or by none.
fn bls_bytes(c: &mut Ctx) -> R {
    let kinds = [k_gen(), k_sk(), k_vk(), k_pop(), k_sig(), k_multi()];
    let k = c.choose("kind", 6);
    let from = c.choose("bytes of", 6);
    static M: Memo<u8, Vec<Vec<u8>>> = Memo::new();
    let docs = M.of(&0, || {
        let g = Generator::new().expect("generator");
        let sk = SignKey::new(None).expect("key");
        let vk = VerKey::new(&g, &sk).expect("key");
        let pop = ProofOfPossession::new(&vk, &sk).expect("proof");
        let s = Bls::sign(b"m", &sk).expect("signature");
        let m = MultiSignature::new(&[&s, &s]).expect("multi");
        vec![g.as_bytes().to_vec(), sk.as_bytes().to_vec(), vk.as_bytes().to_vec(), pop.as_bytes().to_vec(), s.as_bytes().to_vec(), m.as_bytes().to_vec()]
    });
    let mut b = docs[from].clone();
    match c.choose("edit", 6) {
        0 => {}
        1 => { let n = c.choose("length", b.len()); b.truncate(n) }
        2 => { let n = c.choose("more", 3) + 1; b.extend(vec![0; n]) }
        3 => { let i = c.choose("byte", b.len()); let x = c.pick("bit", &[1u8, 0x10, 0x80]); b[i] ^= x }
        4 => { let x = c.pick("all", &[0u8, 0xff, 1]); for y in b.iter_mut() { *y = x } }
        _ => { b.insert(0, 4) }
    }
    c.state(&(k, &b));
    c.step();
    let k = &kinds[k];
    let r = match guard(|| (k.rust)(&b)) {
        Ok(r) => r,
        // what the Rust API does with these bytes is another property
        Err(_) => { c.outcome("panic"); return Ok(()) }
    };
    let o = Out::new();
    let e = call(k.from, &[b.as_ptr() as usize, b.len(), o.p()]);
    match r {
        // the C API takes no empty arrays
        Ok(_) if b.is_empty() => c.ensure(e != 0 && o.untouched(), "accepted", || format!("{} of no bytes: error {}", k.name, e)),
        Ok(w) => {
            c.outcome("read");
            c.ensure(e == 0 && !o.untouched(), "refused", || format!("{} {}: error {}", k.name, hexs(&b), e))?;
            let h = H::new(o.get(), k.free);
            let got = bytes_of(k, h.p);
            c.ensure(got.as_ref() == Ok(&w), "differs", || format!("{} {}: {:?} instead of {}", k.name, hexs(&b), got, hexs(&w)))
        }
        Err(x) => {
            c.outcome("refused");
            let m = last_error();
            c.ensure(e != 0 && o.untouched(), "accepted", || format!("{} {}: error {}", k.name, hexs(&b), e))?;
            c.ensure(b.is_empty() || m == Some(x.to_string()), "message", || format!("{} {}: the last error is {:?} instead of {:?}", k.name, hexs(&b), m, x.to_string()))
        }
    }
}

/// What a function with an `ExternError` did: its bytes or its code and message.
type Did = Result<Vec<u8>, (i32, String)>;
/// Each output buffer that a failing call has left alone holds this.
fn fresh() -> ByteBuffer { ByteBuffer::from_vec(b"untouched".to_vec()) }
fn did(n: i32, outs: Vec<ByteBuffer>, err: &mut ExternError) -> Result<Did, Violation> {
    let v: Vec<Vec<u8>> = outs.into_iter().map(|b| b.destroy_into_vec()).collect();
    let code = err.get_code().code();
    let m = unsafe { std::mem::replace(err, ExternError::success()).get_and_consume_message() };
    let touched = v.iter().filter(|x| x.as_slice() != b"untouched").count();
    match n {
        1 if code == 0 && m.is_none() => if touched == v.len() { Ok(Ok(v.concat())) } else { violation("output", "an output is not set") },
        0 if code != 0 => if touched == 0 { Ok(Err((code, m.unwrap_or_default()))) } else { violation("untouched", "an output is set although the call failed") },
        _ => violation("code", format!("the call returned {} with error {} {:?}", n, code, m)),
    }
}
fn same_did(c: &mut Ctx, what: &str, got: Did, want: Result<Vec<u8>, String>, code: i32) -> R {
    let want: Did = want.map_err(|m| (code, m));
    c.outcome(if want.is_ok() { "done" } else { "refused" });
    let sh = |d: &Did| match d { Ok(b) => hexs(b), Err((n, m)) => format!("error {} {}", n, m) };
    c.ensure(got == want, "differs", || format!("{}: the C API gives {} instead of {}", what, sh(&got), sh(&want)))
}
fn poisoned() -> ExternError {
    ExternError::new_error(ffi_support::ErrorCode::new(77), "left over")
}
fn ed(c: &mut Ctx) -> R {
    let lens: Vec<usize> = if c.thorough() { (0..=70).collect() } else { vec![0, 1, 31, 32, 33, 63, 64, 65] };
    let s = Ed25519Sha512::new();
    c.ensure(fs::ursa_ed25519_get_public_key_size() as usize == ed25519::PUBLIC_KEY_SIZE && fs::ursa_ed25519_get_private_key_size() as usize == ed25519::PRIVATE_KEY_SIZE && fs::ursa_ed25519_get_signature_size() as usize == ed25519::SIGNATURE_SIZE, "size", || "the sizes differ".into())?;
    reseed(3);
    let (pk, sk) = s.keypair(None).expect("keys");
    let msgs: [Vec<u8>; 4] = [vec![], b"m".to_vec(), vec![0; 64], (0..=255).collect()];
    let mut err = poisoned();
    c.step();
    match c.choose("function", 5) {
        0 => {
            c.state(&0);
            let (mut a, mut b) = (fresh(), fresh());
            reseed(3);
            let n = fs::ursa_ed25519_keypair_new(&mut a, &mut b, &mut err);
            let got = did(n, vec![a, b], &mut err)?;
            same_did(c, "keypair_new", got, Ok([&pk.0[..], &sk.0[..]].concat()), 1)
        }
        1 => {
            let n = *c.pick("length", &lens.iter().collect::<Vec<_>>());
            let x = c.pick("byte", &[0u8, 7, 0xff]);
            c.state(&(1, n, x));
            let seed = vec![x; n];
            let want = match guard(|| s.keypair(Some(KeyGenOption::UseSeed(seed.clone())))) { Ok(r) => r.map(|(p, s)| [&p.0[..], &s.0[..]].concat()).map_err(|e| e.to_string()), Err(_) => { c.outcome("panic"); return Ok(()) } };
            let (mut a, mut b) = (fresh(), fresh());
            let n = fs::ursa_ed25519_keypair_from_seed(&ByteArray::from(&seed), &mut a, &mut b, &mut err);
            let got = did(n, vec![a, b], &mut err)?;
            same_did(c, "keypair_from_seed", got, want, 1)
        }
        2 => {
            let mut k = sk.0.clone();
            let n = *c.pick("length", &lens.iter().collect::<Vec<_>>());
            k.resize(n, 1);
            let i = c.choose("flip", 3);
            if i > 0 && n > 0 { let at = if i == 1 { 0 } else { n - 1 }; k[at] ^= 1 }
            c.state(&(2, &k));
            let want = match guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(k.clone()))))) { Ok(r) => r.map(|(p, _)| p.0.clone()).map_err(|e| e.to_string()), Err(_) => { c.outcome("panic"); return Ok(()) } };
            let mut a = fresh();
            let n = fs::ursa_ed25519_get_public_key(&ByteArray::from(&k), &mut a, &mut err);
            let got = did(n, vec![a], &mut err)?;
            same_did(c, "get_public_key", got, want, 1)
        }
        3 => {
            let m = c.pick("message", &[&msgs[0], &msgs[1], &msgs[2], &msgs[3]]);
            let mut k = sk.0.clone();
            let n = *c.pick("length", &lens.iter().collect::<Vec<_>>());
            k.resize(n, 1);
            c.state(&(3, m, n));
            let want = match guard(|| s.sign(m, &PrivateKey(k.clone()))) { Ok(r) => r.map_err(|e| e.to_string()), Err(_) => { c.outcome("panic"); return Ok(()) } };
            let mut a = fresh();
            let n = fs::ursa_ed25519_sign(&ByteArray::from(m), &ByteArray::from(&k), &mut a, &mut err);
            let got = did(n, vec![a], &mut err)?;
            same_did(c, "sign", got, want, 2)
        }
        _ => {
            let m = c.pick("message", &[&msgs[0], &msgs[1], &msgs[2], &msgs[3]]);
            let mut sig = s.sign(m, &sk).expect("signature");
            let (mut mm, mut k) = (m.clone(), pk.0.clone());
            let what = c.choose("deviation", 6);
            match what {
                0 => {}
                1 => { let i = c.choose("byte", 64); sig[i] ^= 1 }
                2 => { let n = *c.pick("length of the signature", &lens.iter().collect::<Vec<_>>()); sig.resize(n, 0) }
                3 => { let n = *c.pick("length of the key", &lens.iter().collect::<Vec<_>>()); k.resize(n, 0) }
                4 => { let i = c.choose("byte", 32); k[i] ^= 1 }
                _ => mm.push(0),
            }
            c.state(&(4, m, &sig, &k, &mm));
            let want = match guard(|| s.verify(&mm, &sig, &PublicKey(k.clone()))) { Ok(r) => r, Err(_) => { c.outcome("panic"); return Ok(()) } };
            let n = fs::ursa_ed25519_verify(&ByteArray::from(&mm), &ByteArray::from(&sig), &ByteArray::from(&k), &mut err);
            let code = err.get_code().code();
            let msg = unsafe { err.get_and_consume_message() };
            let (wn, wc, wm) = match want { Ok(b) => (b as i32, 0, None), Err(e) => (0, 3, Some(e.to_string())) };
            c.outcome(if wn == 1 { "accepted" } else { "refused" });
            c.ensure((n, code, &msg) == (wn, wc, &wm), "verdict", || format!("verify returned {} with error {} {:?} instead of {} with {} {:?}", n, code, msg, wn, wc, wm))
        }
    }
}
type Alias = extern "C" fn(&mut ByteBuffer, &ByteArray, &ByteArray, &ByteArray, &ByteArray, &mut ExternError) -> i32;
fn aead(c: &mut Ctx) -> R {
    let algs: [(&str, Alias, Alias, [usize; 3]); 5] = [
        ("A128CBC-HS256", fe::ursa_aes128_cbc_hmac256_encrypt, fe::ursa_aes128_cbc_hmac256_decrypt, [fe::ursa_aes128_cbc_hmac256_keysize(), fe::ursa_aes128_cbc_hmac256_noncesize(), fe::ursa_aes128_cbc_hmac256_tagsize()]),
        ("A256CBC-HS512", fe::ursa_aes256_cbc_hmac512_encrypt, fe::ursa_aes256_cbc_hmac512_decrypt, [fe::ursa_aes256_cbc_hmac512_keysize(), fe::ursa_aes256_cbc_hmac512_noncesize(), fe::ursa_aes256_cbc_hmac512_tagsize()]),
        ("A128GCM", fe::ursa_aes128_gcm_encrypt, fe::ursa_aes128_gcm_decrypt, [fe::ursa_aes128_gcm_keysize(), fe::ursa_aes128_gcm_noncesize(), fe::ursa_aes128_gcm_tagsize()]),
        ("A256GCM", fe::ursa_aes256_gcm_encrypt, fe::ursa_aes256_gcm_decrypt, [fe::ursa_aes256_gcm_keysize(), fe::ursa_aes256_gcm_noncesize(), fe::ursa_aes256_gcm_tagsize()]),
        ("XC20P", fe::ursa_xchacha20_poly1305_encrypt, fe::ursa_xchacha20_poly1305_decrypt, [fe::ursa_xchacha20_poly1305_keysize(), fe::ursa_xchacha20_poly1305_noncesize(), fe::ursa_xchacha20_poly1305_tagsize()]),
    ];
    let types = [EncryptorType::Aes128CbcHmac256, EncryptorType::Aes256CbcHmac512, EncryptorType::Aes128Gcm, EncryptorType::Aes256Gcm, EncryptorType::XChaCha20Poly1305];
    let a = c.choose("algorithm", 5);
    let t = types[a];
    let (ks, ns) = (algs[a].3[0], algs[a].3[1]);
    let decrypt = c.flag("decrypt");
    let alias = c.flag("alias");
    let lens = |n: usize| vec![n, 0, 1, n - 1, n + 1, 2 * n];
    let kl = c.pick("key", &lens(ks));
    let nonce: Option<Vec<u8>> = match c.choose("nonce", 7) { 6 => None, i => Some((0..lens(ns)[i] as u8).collect()) };
    let aad: Vec<u8> = c.pick("aad", &[vec![], vec![9], vec![0; 40]]);
    let msg: Vec<u8> = c.pick("message", &[vec![], vec![1], vec![2; 16], (0..100).collect()]);
    let key: Vec<u8> = (0..kl as u8).map(|x| x ^ 0x33).collect();
    let name = if alias { t.to_string() } else { match c.choose("name", 5) { 0 => t.to_string(), 1 => t.to_string().to_uppercase(), 2 => "x".into(), 3 => String::new(), _ => t.to_string() + " " } };
    let et = EncryptorType::from_str(&name);
    let tamper = if decrypt { c.choose("tamper", 4) } else { 0 };
    c.state(&(a, decrypt, alias, kl, &nonce, &aad, &msg, &name, tamper));
    c.step();
    // the text to decrypt
    let mut input = msg.clone();
    let mut daad = aad.clone();
    if decrypt {
        let k: Vec<u8> = (0..ks as u8).map(|x| x ^ 0x33).collect();
        let e = t.gen_encryptor(&k);
        reseed(5);
        input = match &nonce { Some(n) if n.len() == ns => e.encrypt(n, &aad, &msg), _ => e.encrypt_easy(&aad, &msg) }.expect("a text");
        match tamper { 1 => { let n = input.len(); input[n - 1] ^= 1 } 2 => { input.pop(); } 3 => daad.push(1), _ => {} }
    }
    let want: Result<Result<Vec<u8>, (i32, String)>, String> = guard(|| {
        let t = et.map_err(|e| (11, e))?;
        if !t.is_valid_keysize(kl) { return Err((8, "Invalid key length".into())) }
        let e = t.gen_encryptor(&key);
        reseed(6);
        match &nonce {
            Some(n) if n.len() != e.noncesize() => Err((9, "Invalid nonce length".into())),
            Some(n) => if decrypt { e.decrypt(n, &daad, &input) } else { e.encrypt(n, &daad, &input) }.map_err(|_| (if decrypt { 7 } else { 6 }, String::new())),
            None => if decrypt { e.decrypt_easy(&daad, &input) } else { e.encrypt_easy(&daad, &input) }.map_err(|_| (if decrypt { 7 } else { 6 }, String::new())),
        }
    });
    let want = match want { Ok(w) => w, Err(_) => { c.outcome("panic"); return Ok(()) } };
    let (mut out, mut err) = (fresh(), poisoned());
    let nb = nonce.as_ref().map_or_else(ByteArray::default, ByteArray::from);
    let (kb, ab, ib) = (ByteArray::from(&key), ByteArray::from(&daad), ByteArray::from(&input));
    reseed(6);
    let n = if alias { (if decrypt { algs[a].2 } else { algs[a].1 })(&mut out, &kb, &nb, &ab, &ib, &mut err) } else {
        let cs = CString::new(name).expect("no NUL");
        let f = unsafe { FfiStr::from_raw(cs.as_ptr()) };
        (if decrypt { fe::ursa_decrypt } else { fe::ursa_encrypt })(&mut out, &f, &kb, &nb, &ab, &ib, &mut err)
    };
    let got = did(n, vec![out], &mut err)?;
    c.outcome(match &want { Ok(_) => "done", Err(_) => "refused" });
    // what the C API says of a failure beyond its code is not compared
    let strip = |d: &Did| d.clone().map_err(|e| e.0);
    c.ensure(strip(&got) == strip(&want), "differs", || format!("{} {}: the C API gives {:?} instead of {:?}", algs[a].0, if decrypt { "decrypt" } else { "encrypt" }, got, want))?;
    if decrypt && kl == ks && tamper == 0 && want.is_ok() { c.ensure(got == Ok(msg), "complete", || "another text comes out".into())? }
    Ok(())
}
const LONG: [usize; 14] = [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16385, 65535, 65536, 65537, 1 << 20];
/// Input of any length passes whole, both ways.
fn long(c: &mut Ctx) -> R {
    let len = c.pick("length", &LONG);
    let bytes: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
    let mut other = bytes.clone();
    other[len - 1] ^= 1;
    let what = c.choose("what", 4);
    c.state(&(len, what));
    c.step();
    let mut err = poisoned();
    match what {
        0 => {
            let s = Ed25519Sha512::new();
            reseed(3);
            let (pk, sk) = s.keypair(None).expect("keys");
            let want = s.sign(&bytes, &sk).map_err(|e| e.to_string());
            let sig = want.clone().expect("signature");
            let mut a = fresh();
            let n = fs::ursa_ed25519_sign(&ByteArray::from(&bytes), &ByteArray::from(&sk.0), &mut a, &mut err);
            let got = did(n, vec![a], &mut err)?;
            same_did(c, "sign", got, want, 2)?;
            for (m, ok) in [(&bytes, 1), (&other, 0)].iter() {
                let n = fs::ursa_ed25519_verify(&ByteArray::from(*m), &ByteArray::from(&sig), &ByteArray::from(&pk.0), &mut err);
                unsafe { err.get_and_consume_message() };
                err = poisoned();
                c.ensure(n == *ok, "verdict", || format!("a message of {} bytes, {}: verify returned {}", len, if *ok == 1 { "as signed" } else { "its last byte changed" }, n))?;
            }
            if let Ok(Ok((p, s))) = guard(|| s.keypair(Some(KeyGenOption::UseSeed(bytes.clone())))) {
                let (mut a, mut b) = (fresh(), fresh());
                let n = fs::ursa_ed25519_keypair_from_seed(&ByteArray::from(&bytes), &mut a, &mut b, &mut err);
                let got = did(n, vec![a, b], &mut err)?;
                same_did(c, "keypair_from_seed", got, Ok([&p.0[..], &s.0[..]].concat()), 1)?;
            }
            Ok(())
        }
        1 => {
            let names = [EncryptorType::Aes128CbcHmac256, EncryptorType::Aes256CbcHmac512, EncryptorType::Aes128Gcm, EncryptorType::Aes256Gcm, EncryptorType::XChaCha20Poly1305];
            let t = names[c.choose("algorithm", 5)];
            let (aad, msg) = if c.flag("aad") { (bytes.clone(), vec![5]) } else { (vec![5], bytes.clone()) };
            let kl = (0..200).find(|n| t.is_valid_keysize(*n)).expect("a size");
            let key = vec![7; kl];
            let e = t.gen_encryptor(&key);
            let nonce = vec![9; e.noncesize()];
            let name = CString::new(t.to_string()).expect("no NUL");
            let f = unsafe { FfiStr::from_raw(name.as_ptr()) };
            let want = e.encrypt(&nonce, &aad, &msg).map_err(|_| String::new());
            let (mut out, mut err) = (fresh(), poisoned());
            let n = fe::ursa_encrypt(&mut out, &f, &ByteArray::from(&key), &ByteArray::from(&nonce), &ByteArray::from(&aad), &ByteArray::from(&msg), &mut err);
            let got = did(n, vec![out], &mut err)?;
            same_did(c, "encrypt", got, want.clone(), 6)?;
            let ct = want.expect("a text");
            let (mut out, mut err) = (fresh(), poisoned());
            let n = fe::ursa_decrypt(&mut out, &f, &ByteArray::from(&key), &ByteArray::from(&nonce), &ByteArray::from(&aad), &ByteArray::from(&ct), &mut err);
            let got = did(n, vec![out], &mut err)?;
            same_did(c, "decrypt", got, Ok(msg), 7)?;
            let mut aad = aad;
            let l = aad.len();
            aad[l - 1] ^= 1;
            let (mut out, mut err) = (fresh(), poisoned());
            let n = fe::ursa_decrypt(&mut out, &f, &ByteArray::from(&key), &ByteArray::from(&nonce), &ByteArray::from(&aad), &ByteArray::from(&ct), &mut err);
            let got = did(n, vec![out], &mut err)?;
            c.ensure(matches!(got, Err((7, _))), "accepted", || format!("{}: aad of {} bytes, the last one changed", t.to_string(), l))
        }
        2 => {
            let gen = make!(c, "generator", k_gen(), false, || Generator::new(), |o| call(fb::ursa_bls_generator_new as usize, &[o.p()])).expect("a generator");
            let sk = match make!(c, "sign key", k_sk(), false, || SignKey::new(Some(&bytes)), |o| call(fb::ursa_bls_sign_key_new as usize, &[bytes.as_ptr() as usize, len, o.p()])) { Some(s) => s, None => make!(c, "sign key", k_sk(), false, || SignKey::new(None), |o| call(fb::ursa_bls_sign_key_new as usize, &[0, 0, o.p()])).expect("a key") };
            let vk = make!(c, "ver key", k_vk(), false, || VerKey::new(&gen.r, &sk.r), |o| call(fb::ursa_bls_ver_key_new as usize, &[gen.h.p, sk.h.p, o.p()])).expect("a key");
            let sig = make!(c, "signature", k_sig(), false, || Bls::sign(&bytes, &sk.r), |o| call(fb::ursa_bls_sign as usize, &[bytes.as_ptr() as usize, len, sk.h.p, o.p()])).expect("a signature");
            for (m, ok) in [(&bytes, true), (&other, false)].iter() {
                let r = verdict(c, "verify", || Bls::verify(&sig.r, m, &vk.r, &gen.r), |f| call(fb::ursa_bls_verify as usize, &[sig.h.p, m.as_ptr() as usize, m.len(), vk.h.p, gen.h.p, f]))?;
                c.ensure(r == Some(*ok), "complete", || format!("a message of {} bytes: {:?} instead of {}", len, r, ok))?;
            }
            Ok(())
        }
        _ => {
            reseed(9);
            let want = ursa::encryption::random_vec(len).map_err(|e| e.to_string());
            reseed(9);
            let mut out = fresh();
            let r = fe::random_bytes(&mut out, len, &mut err);
            let got = did(r, vec![out], &mut err)?;
            same_did(c, "random_bytes", got, want, 10)
        }
    }
}
/// Multi-signatures of many.
fn many(c: &mut Ctx) -> R {
    let n = c.pick("signers", &[5usize, 8, 9, 16, 17, 33]);
    let dev = c.choose("deviation", 5);
    c.state(&(n, dev));
    let gen = make!(c, "generator", k_gen(), false, || Generator::new(), |o| call(fb::ursa_bls_generator_new as usize, &[o.p()])).expect("a generator");
    let (mut vks, mut sigs) = (vec![], vec![]);
    for i in 0..n {
        let seed = vec![i as u8 + 1; 32];
        let sk = make!(c, "sign key", k_sk(), false, || SignKey::new(Some(&seed)), |o| call(fb::ursa_bls_sign_key_new as usize, &[seed.as_ptr() as usize, 32, o.p()])).expect("a key");
        vks.push(make!(c, "ver key", k_vk(), false, || VerKey::new(&gen.r, &sk.r), |o| call(fb::ursa_bls_ver_key_new as usize, &[gen.h.p, sk.h.p, o.p()])).expect("a key"));
        let m: &[u8] = if dev == 1 && i + 1 == n { b"another" } else { b"message" };
        sigs.push(make!(c, "signature", k_sig(), false, || Bls::sign(m, &sk.r), |o| call(fb::ursa_bls_sign as usize, &[m.as_ptr() as usize, m.len(), sk.h.p, o.p()])).expect("a signature"));
    }
    let ts = if dev == 2 { n - 1 } else { n };
    let tv = if dev == 3 { n - 1 } else { n };
    let rs: Vec<&Signature> = sigs[..ts].iter().map(|s| &s.r).collect();
    let hs: Vec<usize> = sigs[..ts].iter().map(|s| s.h.p).collect();
    let multi = make!(c, "multi-signature", k_multi(), false, || MultiSignature::new(&rs), |o| call(fb::ursa_bls_multi_signature_new as usize, &[hs.as_ptr() as usize, ts, o.p()])).expect("a signature");
    let (mut vr, mut vh): (Vec<&VerKey>, Vec<usize>) = (vks[..tv].iter().map(|v| &v.r).collect(), vks[..tv].iter().map(|v| v.h.p).collect());
    if dev == 4 { vr[n - 1] = vr[n - 2]; vh[n - 1] = vh[n - 2] }
    let m = b"message";
    let r = verdict(c, "verify_multi_sig", || Bls::verify_multi_sig(&multi.r, m, &vr, &gen.r), |f| call(fb::ursa_bls_verify_multi_sig as usize, &[multi.h.p, m.as_ptr() as usize, m.len(), vh.as_ptr() as usize, tv, gen.h.p, f]))?;
    c.ensure(r == Some(dev == 0), "complete", || format!("{} signers, deviation {}: {:?}", n, dev, r))
}
/// Names of algorithms that are no text, and sizes.
fn sizes(c: &mut Ctx) -> R {
    let t = [EncryptorType::Aes128CbcHmac256, EncryptorType::Aes256CbcHmac512, EncryptorType::Aes128Gcm, EncryptorType::Aes256Gcm, EncryptorType::XChaCha20Poly1305];
    type Sz = extern "C" fn() -> usize;
    let s: [(Sz, Sz, Sz); 5] = [
        (fe::ursa_aes128_cbc_hmac256_keysize, fe::ursa_aes128_cbc_hmac256_noncesize, fe::ursa_aes128_cbc_hmac256_tagsize),
        (fe::ursa_aes256_cbc_hmac512_keysize, fe::ursa_aes256_cbc_hmac512_noncesize, fe::ursa_aes256_cbc_hmac512_tagsize),
        (fe::ursa_aes128_gcm_keysize, fe::ursa_aes128_gcm_noncesize, fe::ursa_aes128_gcm_tagsize),
        (fe::ursa_aes256_gcm_keysize, fe::ursa_aes256_gcm_noncesize, fe::ursa_aes256_gcm_tagsize),
        (fe::ursa_xchacha20_poly1305_keysize, fe::ursa_xchacha20_poly1305_noncesize, fe::ursa_xchacha20_poly1305_tagsize),
    ];
    let a = c.choose("algorithm", 5);
    let what = c.choose("what", 5);
    c.state(&(a, what));
    c.step();
    let k = (s[a].0)();
    match what {
        0 => c.ensure(t[a].is_valid_keysize(k), "size", || format!("{}: the size of keys {}", t[a].to_string(), k)),
        1 => { let n = t[a].gen_encryptor(&vec![0; k]).noncesize(); c.ensure((s[a].1)() == n, "size", || format!("{}: the size of nonces {} instead of {}", t[a].to_string(), (s[a].1)(), n)) }
        2 => {
            let n = t[a].gen_encryptor(&vec![0; k]).encrypt(&vec![0; (s[a].1)()], b"", b"").expect("a text").len();
            // the text of an empty message is its tag, and a block of padding where there is padding
            let pad = if a < 2 { 16 } else { 0 };
            c.ensure((s[a].2)() + pad == n, "size", || format!("{}: the size of tags {}, the text of an empty message has {}", t[a].to_string(), (s[a].2)(), n))
        }
        n => {
            let bad = CString::new(vec![b'A', 0xff, 0xfe]).expect("no NUL");
            let f = unsafe { FfiStr::from_raw(if n == 3 { std::ptr::null() } else { bad.as_ptr() }) };
            let (mut out, mut err) = (fresh(), poisoned());
            let (key, e) = (vec![0; k], vec![]);
            let r = fe::ursa_encrypt(&mut out, &f, &ByteArray::from(&key), &ByteArray::default(), &ByteArray::from(&e), &ByteArray::from(&e), &mut err);
            let got = did(r, vec![out], &mut err)?;
            c.ensure(matches!(&got, Err((11, _))), "differs", || format!("a name that is no text: {:?}", got))
        }
    }
}
fn random(c: &mut Ctx) -> R {
    let n = c.pick("length", &[0usize, 1, 31, 32, 33, 255, 1000]);
    c.state(&n);
    c.step();
    reseed(9);
    let want = ursa::encryption::random_vec(n).map_err(|e| e.to_string());
    reseed(9);
    let (mut out, mut err) = (fresh(), poisoned());
    let r = fe::random_bytes(&mut out, n, &mut err);
    let got = did(r, vec![out], &mut err)?;
    same_did(c, "random_bytes", got, want, 10)
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution makes the same calls through the C functions and through the Rust API, each pair from the same state of the random number generator, and compares outcomes, error codes, messages, bytes and verdicts; outputs of calls that fail must be as they were.".into(),
        assumptions: vec!["input on which the Rust API itself panics is not judged here".into(), "empty messages and bytes of short signatures, which the C API refuses, are exempt".into()],
        scenarios: vec![
            Scenario::new("bls", "1 to 3 (4) signers x 8 seeds x 4 messages x 8 deviations x with and without bytes", bls_protocol),
            Scenario::new("bls-bytes", "6 kinds of objects from the bytes of 6 kinds: as they are, every truncation, 1 to 3 more bytes, 3 bits of every byte, constant", bls_bytes),
            Scenario::new("ed25519", "5 functions x lengths of seeds, keys and signatures (all up to 70) x 4 messages x every byte of a signature and a key changed", ed),
            Scenario::new("aead", "5 algorithms x encrypt and decrypt x by name and by function x 6 lengths of keys x 7 nonces x 3 aads x 4 messages x 5 names x 4 alterations", aead),
            Scenario::new("long", "14 lengths up to 2^20 of messages, seeds, aads and random bytes; the last byte changed", long),
            Scenario::new("many", "5 to 33 signers x 5 deviations", many),
            Scenario::new("sizes", "15 sizes; names that are null or no text", sizes),
            Scenario::new("random", "7 lengths", random),
        ],
    }
}
