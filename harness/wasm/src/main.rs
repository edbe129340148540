//! W01: what the exported WebAssembly functions compute, against the Rust functions they stand for.
//! The functions are the ones of `ursa::wasm`, run natively; only the JavaScript values they take
//! and give (`JsValue`) are stood in for, by JSON, which is what the real ones carry here.
use mc::*;
use std::str::FromStr;
use ursa::bls;
use ursa::encryption::symm::prelude::*;
use ursa::kex::{x25519::X25519Sha256 as RX, KeyExchangeScheme};
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::{ed25519::Ed25519Sha512 as RE, SignatureScheme};
use ursa::wasm::bls as wb;
use ursa::wasm::ed25519::Ed25519Sha512;
use ursa::wasm::encryption::{UrsaEncryptor, WasmCipherKey};
use ursa::wasm::x25519::X25519Sha256;
use ursa::wasm::{KeyPair, WasmPrivateKey, WasmPublicKey};
use wasm_bindgen::JsValue;

fn bytes(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + salt * 31 + i * i + (salt << 3)) as u8).collect()
}
fn flip(v: &[u8], b: usize) -> Vec<u8> {
    let mut v = v.to_vec();
    v[b / 8] ^= 1 << (b % 8);
    v
}
fn sk(v: &[u8]) -> PrivateKey { PrivateKey(v.to_vec()) }
fn pk(v: &[u8]) -> PublicKey { PublicKey(v.to_vec()) }
fn wpk(v: &[u8]) -> WasmPublicKey { serde_json::from_value(json!(hex::encode(v))).unwrap() }
fn wsk(v: &[u8]) -> WasmPrivateKey { serde_json::from_value(json!(hex::encode(v))).unwrap() }
fn unhex<T: serde::Serialize>(x: &T) -> Vec<u8> { hex::decode(serde_json::to_value(x).unwrap().as_str().unwrap()).unwrap() }
fn pair(k: &KeyPair) -> (Vec<u8>, Vec<u8>) {
    let v = serde_json::to_value(k).unwrap();
    let g = |n: &str| hex::decode(v[n].as_str().unwrap()).unwrap();
    (g("pk"), g("sk"))
}
/// The outcome of a call: `Ok(None)` for an error, `Err` for a panic.
fn out<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<Option<T>, String> { guard(f).map(|r| r.ok()) }
/// Same outcome as the Rust function: the same value or both an error; the exported one never traps.
fn like<T: PartialEq + std::fmt::Debug>(c: &mut Ctx, key: &str, what: impl Fn() -> String, js: Result<Option<T>, String>, rust: Result<Option<T>, String>) -> R<Option<T>> {
    c.step();
    let j = match js {
        Ok(j) => j,
        Err(e) => return violation(format!("{}:trap", key), format!("{}: {}", what(), e)),
    };
    let r = rust.unwrap_or(None);
    c.ensure(j == r, key, || format!("{}: {:?} instead of {:?}", what(), j, r))?;
    Ok(j)
}

// ---- encryption
const CIPHERS: [&str; 5] = ["aes-128-cbc-hmac-256", "aes-256-cbc-hmac-512", "aes-128-gcm", "aes-256-gcm", "xchacha20poly1305"];
const SIZES: [usize; 5] = [32, 64, 16, 32, 32];
fn wkey(i: usize, k: &[u8]) -> WasmCipherKey { UrsaEncryptor::with_key(CIPHERS[i], &hex::encode(k)).ok().unwrap() }
fn renc(i: usize, k: &[u8]) -> Box<dyn DynEncryptor> { EncryptorType::from_str(CIPHERS[i]).unwrap().gen_encryptor(k) }

/// Which names and keys are taken: the five ciphers, exactly the right number of bytes, hexadecimal.
fn enc_keys(c: &mut Ctx) -> R {
    let i = c.choose("cipher", 5);
    let l = c.choose("key length", 70);
    c.state(&(i, l));
    let h = hex::encode(bytes(l, i));
    let got = out(|| UrsaEncryptor::with_key(CIPHERS[i], &h));
    let w = match got { Ok(w) => w, Err(e) => return violation("enc:key:trap", format!("{} with {} bytes: {}", CIPHERS[i], l, e)) };
    c.ensure(w.is_some() == (l == SIZES[i]), "enc:key", || format!("{} with a key of {} bytes: {}", CIPHERS[i], l, w.is_some()))?;
    // malformed text for the key
    for bad in vec![format!("{}0", h), format!("{}zz", h), format!("0x{}", h), format!(" {}", h), "é".repeat(SIZES[i])] {
        c.step();
        let got = out(|| UrsaEncryptor::with_key(CIPHERS[i], &bad)).map(|x| x.is_some());
        c.ensure(got == Ok(false), "enc:key", || format!("{} with the key {:?}: {:?}", CIPHERS[i], bad, got))?;
    }
    if l == SIZES[i] {
        // the key is not altered, in capitals neither
        let e = UrsaEncryptor {};
        for h in vec![h.clone(), h.to_uppercase()] {
            let k = UrsaEncryptor::with_key(CIPHERS[i], &h).ok().unwrap();
            let ct = out(|| e.encrypt(k, b"aad", b"text"));
            let pt = ct.map(|ct| ct.and_then(|ct| renc(i, &bytes(l, i)).decrypt_easy(b"aad", &ct).ok()));
            c.ensure(pt == Ok(Some(b"text".to_vec())), "enc:key", || format!("{}: {:?}", h, pt))?;
        }
        // generated keys: the right length, never twice
        let k: Vec<Vec<u8>> = (0..4).map(|_| {
            let k = UrsaEncryptor::new(CIPHERS[i]).ok().unwrap();
            hex::decode(serde_json::to_value(&k).unwrap()["key"].as_str().unwrap()).unwrap()
        }).collect();
        for a in 0..4 { for b in 0..4 {
            c.ensure(k[a].len() == l && (a == b || k[a] != k[b]), "enc:generated", || format!("{}: keys {:?}", CIPHERS[i], k))?;
            c.ensure(a == b || (0..l).filter(|x| k[a][*x] == k[b][*x]).count() < l / 2, "enc:generated", || format!("{}: keys {:?}", CIPHERS[i], k))?;
        } }
    }
    if l == 0 {
        let mut names: Vec<String> = vec!["".into(), "aes".into(), "none".into(), CIPHERS[i].to_uppercase(), format!("{} ", CIPHERS[i]), CIPHERS[i].replace('-', "_")];
        for n in 1..CIPHERS[i].len() { names.push(CIPHERS[i][..n].into()); }
        for n in names {
            c.steps(2);
            let known = CIPHERS.contains(&&n[..]);
            let got = (out(|| UrsaEncryptor::new(&n)).map(|x| x.is_some()), out(|| UrsaEncryptor::with_key(&n, &hex::encode(bytes(SIZES[i], 1)))).map(|x| x.is_some()));
            c.ensure(known || got == (Ok(false), Ok(false)), "enc:name", || format!("{:?}: {:?}", n, got))?;
        }
    }
    c.outcome(if l == SIZES[i] { "taken" } else { "refused" });
    Ok(())
}
/// What one side encrypts the other decrypts, for the same key and associated data only.
fn enc_across(c: &mut Ctx) -> R {
    let i = c.choose("cipher", 5);
    let lm = c.pick("message length", &[0usize, 1, 15, 16, 17, 31, 32, 33, 100, 4095, 4096, 4097, 65537]);
    let la = c.pick("aad length", &[0usize, 1, 16, 64, 4097]);
    c.state(&(i, lm, la));
    let (k, m, a) = (bytes(SIZES[i], 3), bytes(lm, 4), bytes(la, 5));
    let (e, r) = (UrsaEncryptor {}, renc(i, &k));
    let ct = out(|| e.encrypt(wkey(i, &k), &a, &m));
    let ct = match ct { Ok(Some(x)) => x, o => return violation("enc:encrypt", format!("{} message of {} aad of {}: {:?}", CIPHERS[i], lm, la, o.map(|_| ()))) };
    let same = r.encrypt_easy(&a, &m).unwrap();
    c.ensure(same.len() == ct.len() && same != ct, "enc:encrypt", || format!("{} message of {}: {} bytes", CIPHERS[i], lm, ct.len()))?;
    let again = e.encrypt(wkey(i, &k), &a, &m).ok().unwrap();
    c.ensure(again != ct, "enc:fresh", || format!("{}: the same ciphertext twice", CIPHERS[i]))?;
    for (ct, who) in vec![(&ct, "exported"), (&same, "rust")] {
        let other = bytes(SIZES[i], 9);
        let what = |w: &str| format!("{} by {} message of {} aad of {}: {}", CIPHERS[i], who, lm, la, w);
        let x = like(c, "enc:decrypt", || what("as made"), out(|| e.decrypt(wkey(i, &k), &a, ct)), out(|| r.decrypt_easy(&a, ct)))?;
        c.ensure(x.as_ref() == Some(&m), "enc:decrypt", || what("another message"))?;
        let a2 = [&a[..], &[0]].concat();
        let x = like(c, "enc:decrypt", || what("other aad"), out(|| e.decrypt(wkey(i, &k), &a2, ct)), out(|| r.decrypt_easy(&a2, ct)))?;
        c.ensure(x.is_none(), "enc:tampered", || what("other aad accepted"))?;
        let x = like(c, "enc:decrypt", || what("other key"), out(|| e.decrypt(wkey(i, &other), &a, ct)), out(|| renc(i, &other).decrypt_easy(&a, ct)))?;
        c.ensure(x.is_none(), "enc:tampered", || what("other key accepted"))?;
        // every single bit of short ones, every length
        if ct.len() < 150 {
            for b in 0..ct.len() * 8 {
                let y = flip(ct, b);
                let x = out(|| e.decrypt(wkey(i, &k), &a, &y)); c.step();
                c.ensure(x == Ok(None), "enc:tampered", || what(&format!("bit {}: {:?}", b, x)))?;
            }
            for l in 0..ct.len() + 40 {
                if l == ct.len() { continue }
                let mut y = ct.clone(); y.resize(l, 0);
                let x = out(|| e.decrypt(wkey(i, &k), &a, &y)); c.step();
                c.ensure(x == Ok(None), "enc:tampered", || what(&format!("{} bytes: {:?}", l, x)))?;
            }
        }
        // under every other cipher that takes the key
        for j in (0..5).filter(|j| *j != i && SIZES[*j] == SIZES[i]) {
            let x = out(|| e.decrypt(wkey(j, &k), &a, ct)); c.step();
            c.ensure(x == Ok(None), "enc:cipher", || what(&format!("as {}: {:?}", CIPHERS[j], x)))?;
        }
    }
    c.outcome("ok");
    Ok(())
}

// ---- Ed25519
fn ed(c: &mut Ctx) -> R {
    let (w, s) = (Ed25519Sha512::new(), RE::new());
    let (i, lm) = (c.choose("key", 3), c.pick("message length", &[0usize, 1, 31, 32, 33, 64, 127, 128, 1000, 4097]));
    c.state(&(i, lm));
    let seed = bytes([32, 1, 100][i], i);
    let (p, k) = s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))).unwrap();
    let kp = like(c, "ed:seed", || format!("seed {}", i), out(|| w.keyPairFromSeed(&seed)).map(|x| x.map(|x| pair(&x))), Ok(Some((p[..].to_vec(), k[..].to_vec()))))?.unwrap();
    let m = bytes(lm, 7);
    let sig = like(c, "ed:sign", || format!("message of {}", lm), out(|| w.sign(&m, &wsk(&kp.1))), out(|| s.sign(&m, &k)))?.unwrap();
    like(c, "ed:public", || "public key".into(), out(|| w.getPublicKey(&wsk(&kp.1))).map(|x| x.map(|x| unhex(&x))), Ok(Some(kp.0.clone())))?;
    for j in 0..3 {
        let pj = s.keypair(Some(KeyGenOption::UseSeed(bytes([32, 1, 100][j], j)))).unwrap().0;
        for m2 in vec![m.clone(), bytes(lm + 1, 7), bytes(lm, 8), vec![]] {
            let x = like(c, "ed:verify", || format!("key {}/{} message {}/{}", i, j, lm, m2.len()), out(|| w.verify(&m2, &sig, &wpk(&pj[..]))), out(|| s.verify(&m2, &sig, &pj)))?;
            c.ensure((x == Some(true)) == (i == j && m2 == m), "ed:exact", || format!("key {}/{}: {:?}", i, j, x))?;
        }
    }
    for b in 0..512 {
        let y = flip(&sig, b);
        let x = like(c, "ed:verify", || format!("bit {} of the signature", b), out(|| w.verify(&m, &y, &wpk(&kp.0))), out(|| s.verify(&m, &y, &p)))?;
        c.ensure(x != Some(true), "ed:exact", || format!("bit {} of the signature", b))?;
    }
    for l in 0..70 {
        let (mut a, mut b, mut d) = (sig.clone(), kp.0.clone(), kp.1.clone());
        a.resize(l, 1); b.resize(l, 1); d.resize(l, 1);
        if l != 64 {
            like(c, "ed:length", || format!("signature of {}", l), out(|| w.verify(&m, &a, &wpk(&kp.0))), out(|| s.verify(&m, &a, &p)))?;
            like(c, "ed:length", || format!("secret of {}", l), out(|| w.sign(&m, &wsk(&d))), out(|| s.sign(&m, &sk(&d))))?;
            like(c, "ed:length", || format!("secret of {}", l), out(|| w.getPublicKey(&wsk(&d))).map(|x| x.map(|x| unhex(&x))), out(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&d))))).map(|x| x.map(|x| x.0[..].to_vec())))?;
        }
        if l != 32 { like(c, "ed:length", || format!("key of {}", l), out(|| w.verify(&m, &sig, &wpk(&b))), out(|| s.verify(&m, &sig, &pk(&b))))?; }
    }
    let (a, b) = (pair(&w.keypair().ok().unwrap()), pair(&w.keypair().ok().unwrap()));
    c.ensure(a != b && a.1 != b.1, "ed:random", || "the same pair twice".into())?;
    let sg = w.sign(&m, &wsk(&a.1)).ok().unwrap();
    c.ensure(s.verify(&m, &sg, &pk(&a.0)).ok() == Some(true) && s.verify(&m, &sg, &pk(&b.0)).ok() != Some(true), "ed:random", || "generated pair".into())?;
    c.outcome("ok");
    Ok(())
}

// ---- X25519
fn x(c: &mut Ctx) -> R {
    let (w, s) = (X25519Sha256::new(), RX::new());
    let (i, j) = (c.choose("one", 4), c.choose("other", 4));
    c.state(&(i, j));
    let seed = |i: usize| bytes([32, 0, 5, 100][i], i);
    let r = |i: usize| s.keypair(Some(KeyGenOption::UseSeed(seed(i)))).unwrap();
    let own = |(p, k): (PublicKey, PrivateKey)| (p[..].to_vec(), k[..].to_vec());
    let (a, b) = (own(r(i)), own(r(j)));
    let g = like(c, "x:seed", || format!("seed {}", i), out(|| w.keyPairFromSeed(&seed(i))).map(|x| x.map(|x| pair(&x))), Ok(Some((a.0[..].to_vec(), a.1[..].to_vec()))))?.unwrap();
    like(c, "x:public", || format!("key {}", i), out(|| w.getPublicKey(&wsk(&g.1))).map(|x| x.map(|x| unhex(&x))), Ok(Some(g.0.clone())))?;
    let sh = |k: &[u8], p: &[u8]| out(|| w.computeSharedSecret(&wsk(k), &wpk(p))).map(|x| x.map(|x| unhex(&x)));
    let rs = |k: &[u8], p: &[u8]| out(|| s.compute_shared_secret(&sk(k), &pk(p))).map(|x| x.map(|x| x[..].to_vec()));
    let one = like(c, "x:shared", || format!("{} {}", i, j), sh(&a.1, &b.0[..]), rs(&a.1, &b.0[..]))?;
    let two = like(c, "x:shared", || format!("{} {}", j, i), sh(&b.1, &a.0), rs(&b.1, &a.0))?;
    c.ensure(one.is_some() && one == two, "x:agree", || format!("{:?} {:?}", one, two))?;
    for bit in 0..256 {
        let y = flip(&b.0, bit);
        let z = like(c, "x:shared", || format!("bit {}", bit), sh(&a.1, &y), rs(&a.1, &y))?;
        c.ensure(bit == 255 || z != one, "x:agree", || format!("bit {} of the key changes nothing", bit))?;
    }
    for l in 0..70 {
        let (mut y, mut z) = (b.0[..].to_vec(), a.1[..].to_vec());
        y.resize(l, 1); z.resize(l, 1);
        like(c, "x:length", || format!("key of {}", l), sh(&a.1, &y), rs(&a.1, &y))?;
        like(c, "x:length", || format!("secret of {}", l), sh(&z, &b.0), rs(&z, &b.0))?;
        like(c, "x:length", || format!("secret of {}", l), out(|| w.getPublicKey(&wsk(&z))).map(|x| x.map(|x| unhex(&x))), out(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&z))))).map(|x| x.map(|x| x.0[..].to_vec())))?;
    }
    let (a, b) = (pair(&w.keypair().ok().unwrap()), pair(&w.keypair().ok().unwrap()));
    c.ensure(a != b && sh(&a.1, &b.0) == sh(&b.1, &a.0) && rs(&a.1, &b.0) == sh(&b.1, &a.0), "x:random", || "generated pairs".into())?;
    c.outcome("ok");
    Ok(())
}

// ---- BLS
static GEN: Memo<usize, Vec<u8>> = Memo::new();
fn gen(i: usize) -> Vec<u8> {
    GEN.of(&i, || { rng::script(&[i as u8 + 1]); let g = bls::Generator::new().unwrap().as_bytes().to_vec(); rng::clear_script(); g }).to_vec()
}
fn rsk(i: usize) -> bls::SignKey { bls::SignKey::new(Some(&bytes(32, i + 1))).unwrap() }
fn rvk(i: usize, g: usize) -> bls::VerKey { bls::VerKey::new(&bls::Generator::from_bytes(&gen(g)).unwrap(), &rsk(i)).unwrap() }
fn wg(i: usize) -> wb::Generator { wb::Generator::from_bytes(&gen(i)).ok().unwrap() }
fn ws(i: usize) -> wb::SignKey { wb::SignKey::from_seed(&bytes(32, i + 1)).ok().unwrap() }
fn js<T: serde::Serialize>(x: &T) -> JsValue { JsValue::from_serde(x).unwrap() }

fn bls_one(c: &mut Ctx) -> R {
    let (i, lm) = (c.choose("key", 3), c.pick("message length", &[0usize, 1, 32, 33, 100, 4097]));
    let g = c.choose("generator", 2);
    c.state(&(i, g, lm));
    let m = bytes(lm, 3);
    let (k, v, rg) = (rsk(i), rvk(i, g), bls::Generator::from_bytes(&gen(g)).unwrap());
    c.ensure(out(|| ws(i).to_bytes()) == Ok(Some(k.as_bytes().to_vec())), "bls:seed", || format!("key {}", i))?;
    c.ensure(wg(g).as_bytes() == gen(g), "bls:generator", || format!("generator {}", g))?;
    let wv = like(c, "bls:verkey", || format!("key {}", i), out(|| wb::VerKey::new(wg(g), ws(i)).and_then(|x| x.to_bytes())), Ok(Some(v.as_bytes().to_vec())))?.unwrap();
    let sig = like(c, "bls:sign", || format!("message of {}", lm), out(|| wb::Bls::sign(&m, &ws(i)).and_then(|x| x.as_bytes())), Ok(Some(bls::Bls::sign(&m, &k).unwrap().as_bytes().to_vec())))?.unwrap();
    let pop = like(c, "bls:pop", || format!("key {}", i), out(|| wb::VerKey::from_bytes(&wv).and_then(|v| wb::ProofOfPossession::new(&v, &ws(i))).and_then(|x| x.as_bytes())), Ok(Some(bls::ProofOfPossession::new(&v, &k).unwrap().as_bytes().to_vec())))?.unwrap();
    for j in 0..3 { for h in 0..2 {
        let vb = rvk(j, h).as_bytes().to_vec();
        let v2 = wb::VerKey::from_bytes(&vb).ok().unwrap();
        for h2 in 0..2 {
            for m2 in vec![m.clone(), bytes(lm + 1, 3), bytes(lm, 4)] {
                let r = out(|| bls::Bls::verify(&bls::Signature::from_bytes(&sig).unwrap(), &m2, &rvk(j, h), &bls::Generator::from_bytes(&gen(h2)).unwrap()));
                let x = like(c, "bls:verify", || format!("key {}/{} generators {}/{}", i, j, h, h2), out(|| wb::Bls::verify(&m2, &wb::Signature::from_bytes(&sig).ok().unwrap(), &v2, &wg(h2))), r)?;
                c.ensure(x == Some(i == j && h == h2 && m2 == m), "bls:exact", || format!("key {}/{} generators {}/{}: {:?}", i, j, h, h2, x))?;
            }
            let r = out(|| bls::Bls::verify_proof_of_posession(&bls::ProofOfPossession::from_bytes(&pop).unwrap(), &rvk(j, h), &bls::Generator::from_bytes(&gen(h2)).unwrap()));
            let x = like(c, "bls:pop", || format!("key {}/{}", i, j), out(|| wb::Bls::verifyProofOfPosession(&wb::ProofOfPossession::from_bytes(&pop).ok().unwrap(), &v2, &wg(h2))), r)?;
            c.ensure(x == Some(i == j && h == g && h == h2), "bls:exact", || format!("possession of {}/{} generators {}/{}/{}: {:?}", i, j, g, h, h2, x))?;
        }
    } }
    let _ = rg;
    // bytes of any length, and with a bit altered
    let ms = bls::MultiSignature::new(&[&bls::Signature::from_bytes(&sig).unwrap()]).unwrap().as_bytes().to_vec();
    for l in 0..300 {
        let cut = |b: &[u8]| { let mut b = b.to_vec(); b.resize(l, 0); b };
        let b = cut(&gen(g));
        like(c, "bls:bytes", || format!("generator of {}", l), out(|| wb::Generator::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes())), out(|| bls::Generator::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = cut(&wv);
        like(c, "bls:bytes", || format!("key of {}", l), out(|| wb::VerKey::from_bytes(&b).and_then(|x| x.to_bytes())), out(|| bls::VerKey::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = cut(k.as_bytes());
        like(c, "bls:bytes", || format!("secret of {}", l), out(|| wb::SignKey::from_bytes(&b).and_then(|x| x.to_bytes())), out(|| bls::SignKey::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = bytes(l, 2);
        like(c, "bls:bytes", || format!("seed of {}", l), out(|| wb::SignKey::from_seed(&b).and_then(|x| x.to_bytes())), out(|| bls::SignKey::new(Some(&b))).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = cut(&sig);
        like(c, "bls:bytes", || format!("signature of {}", l), out(|| wb::Signature::from_bytes(&b).and_then(|x| x.as_bytes())), out(|| bls::Signature::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = cut(&ms);
        like(c, "bls:bytes", || format!("multi-signature of {}", l), out(|| wb::MultiSignature::from_bytes(&b).and_then(|x| x.as_bytes())), out(|| bls::MultiSignature::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
        let b = cut(&pop);
        like(c, "bls:bytes", || format!("proof of {}", l), out(|| wb::ProofOfPossession::from_bytes(&b).and_then(|x| x.as_bytes())), out(|| bls::ProofOfPossession::from_bytes(&b)).map(|x| x.map(|x| x.as_bytes().to_vec())))?;
    }
    let (a, b) = (wb::SignKey::new().ok().unwrap().to_bytes().ok(), wb::SignKey::new().ok().unwrap().to_bytes().ok());
    c.ensure(a.is_some() && a != b, "bls:random", || "the same key twice".into())?;
    let (a, b) = (wb::Generator::new().ok().unwrap().as_bytes(), wb::Generator::new().ok().unwrap().as_bytes());
    c.ensure(a != b, "bls:random", || "the same generator twice".into())?;
    c.outcome("ok");
    Ok(())
}
/// Signatures and keys passed as JavaScript arrays.
fn bls_multi(c: &mut Ctx) -> R {
    let signed = c.subset("signers", 4);
    let asked = c.subset("keys", 4);
    c.state(&(signed.clone(), asked.clone()));
    let m = b"shared message".to_vec();
    let (g, rg) = (wg(0), bls::Generator::from_bytes(&gen(0)).unwrap());
    let sigs: Vec<bls::Signature> = signed.iter().map(|i| bls::Bls::sign(&m, &rsk(*i)).unwrap()).collect();
    let rms = out(|| bls::MultiSignature::new(&sigs.iter().collect::<Vec<_>>()));
    let want = rms.as_ref().map(|x| x.as_ref().map(|x| x.as_bytes().to_vec())).map_err(|e| e.clone());
    let got = out(|| wb::MultiSignature::new(sigs.iter().map(js).collect()).and_then(|x| x.as_bytes()));
    let b = like(c, "bls:multi", || format!("{:?}", signed), got, want)?;
    if let Some(b) = b {
        for mm in vec![m.clone(), b"other message".to_vec()] {
            for rev in vec![false, true] {
                let mut vk: Vec<bls::VerKey> = asked.iter().map(|i| rvk(*i, 0)).collect();
                if rev { vk.reverse() }
                let r = out(|| bls::Bls::verify_multi_sig(&bls::MultiSignature::from_bytes(&b).unwrap(), &mm, &vk.iter().collect::<Vec<_>>(), &rg));
                let ms = wb::MultiSignature::from_bytes(&b).ok().unwrap();
                let x = like(c, "bls:multi", || format!("signed by {:?}, asked {:?}", signed, asked), out(|| wb::Bls::verifyMultiSignature(&ms, &mm, vk.iter().map(js).collect(), &g)), r)?;
                c.ensure((x == Some(true)) == (signed == asked && !asked.is_empty() && mm == m), "bls:multi", || format!("signed by {:?}, asked {:?}: {:?}", signed, asked, x))?;
            }
        }
        // what is no signature or key
        let junk = vec![JsValue::null(), JsValue::from_str("x"), JsValue::from_bool(true), js(&json!({})), js(&json!({"point": "1 2", "bytes": []})), js(&json!([1, 2])), js(&vec![0u8; 128])];
        for (n, bad) in junk.into_iter().enumerate() {
            for at in 0..signed.len() + 1 {
                let mut l: Vec<JsValue> = sigs.iter().map(js).collect();
                l.insert(at, bad.clone());
                let x = out(|| wb::MultiSignature::new(l)).map(|x| x.is_some()); c.step();
                c.ensure(x == Ok(false), if x.is_err() { "bls:junk:trap" } else { "bls:junk" }, || format!("signatures with {} at {}: {:?}", n, at, x))?;
            }
            for at in 0..asked.len() + 1 {
                let mut l: Vec<JsValue> = asked.iter().map(|i| js(&rvk(*i, 0))).collect();
                l.insert(at, bad.clone());
                let ms = wb::MultiSignature::from_bytes(&b).ok().unwrap();
                let x = out(|| wb::Bls::verifyMultiSignature(&ms, &m, l, &g)).map(|x| x == Some(true)); c.step();
                c.ensure(x == Ok(false), if x.is_err() { "bls:junk:trap" } else { "bls:junk" }, || format!("keys with {} at {}: {:?}", n, at, x))?;
            }
        }
    }
    c.outcome("ok");
    Ok(())
}
fn build(_: Tier) -> Check {
    Check {
        rule: "each exported function gives what the Rust function it stands for gives, an error where that fails, and never traps".into(),
        assumptions: vec![
            "JsValue is stood in for by JSON text (what from_serde and into_serde carry), #[wasm_bindgen] by the identity; the code of ursa::wasm is the real one, compiled natively".into(),
        ],
        scenarios: vec![
            Scenario::new("enc-keys", "5 ciphers x key lengths 0..69, names, malformed hex, generated keys", enc_keys),
            Scenario::new("enc-across", "5 ciphers x 13 message lengths x 5 aad lengths, both directions; every bit and length of short ciphertexts", enc_across),
            Scenario::new("ed25519", "3 keys x 10 message lengths; every bit of the signature; every length up to 69", ed),
            Scenario::new("x25519", "4 x 4 seeded keys; every bit of the peer's key; every length up to 69", x),
            Scenario::new("bls-one", "3 keys x 2 generators x 6 message lengths, all combinations; byte strings of 0..299", bls_one),
            Scenario::new("bls-multi", "every subset of 4 signers against every subset of 4 keys; 7 values that are no signature or key at every position", bls_multi),
        ],
    }
}
fn main() {
    mc::main(&[("W01", build)]);
}
