//! S01: Ed25519 and ECDSA over secp256k1, against OpenSSL as oracle.
use mc::*;
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::{EcGroup, EcKey, EcPoint, PointConversionForm};
use openssl::ecdsa::EcdsaSig;
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey};
use openssl::sha::sha256;
use openssl::sign::{Signer as OSigner, Verifier as OVerifier};
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::secp256k1::EcdsaSecp256k1Sha256;
use ursa::signatures::{EcdsaPublicKeyHandler, SignatureScheme, Signer};

pub fn bytes(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + salt * 31 + i * i + (salt << 3)) as u8).collect()
}
pub fn flip(v: &[u8], b: usize) -> Vec<u8> {
    let mut v = v.to_vec();
    v[b / 8] ^= 1 << (b % 8);
    v
}
pub fn sk(v: &[u8]) -> PrivateKey { PrivateKey(v.to_vec()) }
pub fn pk(v: &[u8]) -> PublicKey { PublicKey(v.to_vec()) }
/// What a verification comes to: an error is a refusal.
fn judge<E>(r: Result<Result<bool, E>, String>) -> Result<bool, String> {
    r.map(|x| x.unwrap_or(false))
}
// ---- Ed25519
pub fn ed_public(seed: &[u8]) -> Vec<u8> {
    PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap().raw_public_key().unwrap()
}
pub fn ed_secret(seed: &[u8]) -> Vec<u8> {
    let mut v = seed.to_vec();
    v.extend(ed_public(seed));
    v
}
fn ed_sign(seed: &[u8], m: &[u8]) -> Vec<u8> {
    let k = PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap();
    OSigner::new_without_digest(&k).unwrap().sign_oneshot_to_vec(m).unwrap()
}
fn ed_verify(p: &[u8], m: &[u8], s: &[u8]) -> bool {
    match PKey::public_key_from_raw_bytes(p, Id::ED25519) {
        Ok(k) => OVerifier::new_without_digest(&k).unwrap().verify_oneshot(s, m).unwrap_or(false),
        Err(_) => false,
    }
}
fn ed_matrix(c: &mut Ctx) -> R {
    let s = Ed25519Sha512::new();
    let (i, lm) = (c.choose("key", 4), c.choose("message length", 140));
    let (seed, m) = (bytes(32, i), bytes(lm, i + lm));
    let secret = ed_secret(&seed);
    c.state(&(i, lm));
    let sig = s.sign(&m, &sk(&secret)).map_err(|e| Violation { key: "ed:sign".into(), msg: e.to_string() })?;
    c.ensure(sig == ed_sign(&seed, &m), "ed:sign", || format!("key {} message of {}: not the RFC 8032 signature", i, lm))?;
    let sg = PrivateKey(secret.clone());
    let w = Signer::new(&s, &sg);
    c.ensure(w.sign(&m).ok() == Some(sig.clone()) && w.get_public_key().ok() == Some(pk(&ed_public(&seed))), "ed:signer", || "Signer differs from the scheme".into())?;
    for j in 0..4 {
        for l in &[lm, lm + 1, lm ^ 1, 0] {
            let m2 = bytes(*l, i + l);
            c.step();
            let want = i == j && m2 == m;
            let got = judge(guard(|| s.verify(&m2, &sig, &pk(&ed_public(&bytes(32, j))))));
            c.ensure(got == Ok(want), "ed:verify", || format!("key {}/{} message {}/{}: {:?}", i, j, lm, l, got))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
fn ed_tamper(c: &mut Ctx) -> R {
    let s = Ed25519Sha512::new();
    let i = c.choose("key", 3);
    let lm = c.pick("message length", &[0usize, 1, 40]);
    let kind = c.choose("alteration", 5);
    c.state(&(i, lm, kind));
    let (seed, m) = (bytes(32, i), bytes(lm, 3));
    let (p, sig) = (ed_public(&seed), ed_sign(&seed, &m));
    let mut refuse = |c: &mut Ctx, m: &[u8], sig: &[u8], p: &[u8], what: String| -> R {
        c.step();
        match judge(guard(|| s.verify(m, sig, &pk(p)))) {
            Ok(false) => Ok(()),
            Ok(true) => violation("ed:tampered", format!("{}: accepted", what)),
            Err(e) => violation("ed:panic", format!("{}: {}", what, e)),
        }
    };
    match kind {
        0 => for b in 0..512 { refuse(c, &m, &flip(&sig, b), &p, format!("bit {} of the signature flipped", b))? },
        1 => for b in 0..256 { refuse(c, &m, &sig, &flip(&p, b), format!("bit {} of the key flipped", b))? },
        2 => for b in 0..m.len() * 8 { refuse(c, &flip(&m, b), &sig, &p, format!("bit {} of the message flipped", b))? },
        3 => for l in 0..130 {
            if l != 64 { let mut x = sig.clone(); x.resize(l, 0); refuse(c, &m, &x, &p, format!("signature of {} bytes", l))?; }
            if l != 32 { let mut x = p.clone(); x.resize(l, 0); refuse(c, &m, &sig, &x, format!("public key of {} bytes", l))?; }
        },
        _ => {
            // s + k L: the same signature in another representation
            let l = BigNum::from_hex_str("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed").unwrap();
            let mut be = sig[32..].to_vec();
            be.reverse();
            let mut x = BigNum::from_slice(&be).unwrap();
            for k in 1..15 {
                x = &x + &l;
                if x.num_bytes() > 32 { break }
                let mut v = x.to_vec();
                while v.len() < 32 { v.insert(0, 0) }
                v.reverse();
                let mut y = sig[..32].to_vec();
                y.extend(v);
                refuse(c, &m, &y, &p, format!("s + {} L", k))?;
            }
        }
    }
    c.outcome("refused");
    Ok(())
}
/// Long messages under both schemes: the standard's signature, and only the whole message verifies.
fn long(c: &mut Ctx) -> R {
    let ec = c.flag("ecdsa");
    let l = c.pick("length", &[255usize, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000, 16384, 65535, 65536, 65537, 1 << 20]);
    c.state(&(ec, l));
    let m = bytes(l, 3);
    let (e, k) = (Ed25519Sha512::new(), EcdsaSecp256k1Sha256::new());
    let (p, s) = if ec { k.keypair(Some(KeyGenOption::UseSeed(bytes(32, 4)))).unwrap() } else { e.keypair(Some(KeyGenOption::UseSeed(bytes(32, 4)))).unwrap() };
    let sig = if ec { k.sign(&m, &s) } else { e.sign(&m, &s) }.map_err(|e| Violation { key: "long:sign".into(), msg: e.to_string() })?;
    if !ec { c.ensure(sig == ed_sign(&s[..32], &m), "long:sign", || format!("message of {} bytes: not the standard's signature", l))?; }
    let ver = |m: &[u8]| judge(guard(|| if ec { k.verify(m, &sig, &p) } else { e.verify(m, &sig, &p) }));
    c.ensure(ver(&m) == Ok(true), "long:verify", || format!("message of {} bytes", l))?;
    let mut at: Vec<usize> = (0..21).flat_map(|x| vec![(1usize << x) - 1, 1 << x, (1 << x) + 1]).collect();
    at.extend(vec![0, l - 1, l - 2, l / 2, l / 3]);
    for b in at.into_iter().filter(|b| *b < l) {
        let mut x = m.clone(); x[b] ^= 4; c.steps(3);
        c.ensure(ver(&x) == Ok(false), "long:altered", || format!("ecdsa {} message of {} bytes, byte {} altered", ec, l, b))?;
        c.ensure(ver(&m[..b]) == Ok(false), "long:cut", || format!("ecdsa {} message of {} bytes, the first {}", ec, l, b))?;
        c.ensure(ver(&m[b + 1..]) == Ok(false), "long:cut", || format!("ecdsa {} message of {} bytes, the first {} left out", ec, l, b + 1))?;
    }
    let mut x = m.clone(); x.push(0);
    c.ensure(ver(&x) == Ok(false), "long:extended", || format!("message of {} bytes and a zero", l))?;
    c.outcome("ok");
    Ok(())
}
/// Generated, seeded and given keys.
fn ed_keys(c: &mut Ctx) -> R {
    let s = Ed25519Sha512::new();
    let l = c.choose("length", 131);
    c.state(&l);
    // any length of seed: the same keys from the same seed, others from others, signing and verifying
    let seed = bytes(l, 7);
    let gen = |x: &[u8]| guard(|| s.keypair(Some(KeyGenOption::UseSeed(x.to_vec()))).map_err(|e| e.to_string()));
    let (p1, k1) = match gen(&seed) { Ok(Ok(x)) => x, o => return violation("ed:seed", format!("seed of {}: {:?}", l, o)) };
    c.ensure(gen(&seed) == Ok(Ok((p1.clone(), k1.clone()))), "ed:seed", || "the same seed gives other keys".into())?;
    c.ensure(k1.len() == 64 && p1[..] == ed_public(&k1[..32])[..] && k1[32..] == p1[..], "ed:pair", || "public key is not that of the secret".into())?;
    let mut other = vec![[&seed[..], &[0]].concat()];
    for b in 0..l * 8 { if b % 8 == 3 { other.push(flip(&seed, b)) } }
    for o in other {
        c.step();
        let (p2, _) = gen(&o).unwrap().unwrap();
        c.ensure(p2 != p1, "ed:seed", || format!("seeds {} and {} give the same key", hexs(&seed), hexs(&o)))?;
    }
    let (p3, k3) = s.keypair(None).unwrap();
    let (p4, _) = s.keypair(None).unwrap();
    c.ensure(p3 != p4 && p3[..] == ed_public(&k3[..32])[..], "ed:random", || "generated keys".into())?;
    // a secret key of l bytes
    let mut given = ed_secret(&bytes(32, 9));
    given.resize(l, 0);
    for (how, r) in vec![
        ("keypair", guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&given)))).is_ok())),
        ("sign", guard(|| s.sign(b"m", &sk(&given)).is_ok())),
        ("Signer::sign", guard(|| Signer::new(&s, &sk(&given)).sign(b"m").is_ok())),
        ("Signer::get_public_key", guard(|| Signer::new(&s, &sk(&given)).get_public_key().is_ok())),
    ] {
        c.step();
        c.ensure(r == Ok(l == 64), if r.is_err() { "ed:secret:panic" } else { "ed:secret" }, || format!("{} with a secret key of {} bytes: {:?}", how, l, r))?;
    }
    if l == 64 {
        let r = s.keypair(Some(KeyGenOption::FromSecretKey(sk(&given)))).unwrap();
        c.ensure(r.0[..] == given[32..] && r.1[..] == given[..], "ed:secret", || "keys given back differ".into())?;
        // the public half of another key: signing under it would reveal the secret key
        for b in 0..256 {
            let bad = flip(&given, 256 + b);
            c.step();
            let r1 = guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&bad)))).is_ok());
            c.ensure(r1 == Ok(false), "ed:halves", || format!("keypair with bit {} of the public half flipped: {:?}", b, r1))?;
            let r2 = guard(|| s.sign(b"m", &sk(&bad)).ok());
            let fine = r2 == Ok(None) || r2 == Ok(Some(ed_sign(&given[..32], b"m")));
            c.ensure(fine, "ed:halves", || format!("sign with bit {} of the public half flipped", b))?;
        }
    }
    // expand_keypair
    let ikm = bytes(l, 11);
    let r = guard(|| Ed25519Sha512::expand_keypair(&ikm).ok());
    let want = if l >= 32 { Some((pk(&ed_public(&ikm[..32])), sk(&ed_secret(&ikm[..32])))) } else { None };
    c.ensure(r == Ok(want), "ed:expand", || format!("expand_keypair of {} bytes", l))?;
    c.outcome("ok");
    Ok(())
}
// ---- ECDSA
pub fn group() -> EcGroup { EcGroup::from_curve_name(Nid::SECP256K1).unwrap() }
fn order() -> BigNum {
    let mut n = BigNum::new().unwrap();
    group().order(&mut n, &mut BigNumContext::new().unwrap()).unwrap();
    n
}
pub fn pad(n: &BigNum) -> Vec<u8> { n.to_vec_padded(32).unwrap() }
pub fn ec_point(secret: &[u8]) -> EcPoint {
    let g = group();
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator(&g, &BigNum::from_slice(secret).unwrap(), &BigNumContext::new().unwrap()).unwrap();
    p
}
pub fn ec_bytes(p: &EcPoint, compressed: bool) -> Vec<u8> {
    let f = if compressed { PointConversionForm::COMPRESSED } else { PointConversionForm::UNCOMPRESSED };
    p.to_bytes(&group(), f, &mut BigNumContext::new().unwrap()).unwrap()
}
pub fn ec_parse(b: &[u8]) -> Option<EcPoint> {
    let g = group();
    EcPoint::from_bytes(&g, b, &mut BigNumContext::new().unwrap()).ok().filter(|p| !p.is_infinity(&g))
}
fn ec_verify(p: &EcPoint, m: &[u8], sig: &[u8]) -> bool {
    let k = EcKey::from_public_key(&group(), p).unwrap();
    let s = EcdsaSig::from_private_components(BigNum::from_slice(&sig[..32]).unwrap(), BigNum::from_slice(&sig[32..]).unwrap()).unwrap();
    s.verify(&sha256(m), &k).unwrap_or(false)
}
fn ec_sign(secret: &[u8], m: &[u8]) -> Vec<u8> {
    let k = EcKey::from_private_components(&group(), &BigNum::from_slice(secret).unwrap(), &ec_point(secret)).unwrap();
    let s = EcdsaSig::sign(&sha256(m), &k).unwrap();
    [pad(&s.r().to_owned().unwrap()), pad(&s.s().to_owned().unwrap())].concat()
}
fn high(sig: &[u8]) -> bool {
    let mut half = order();
    half.rshift1_().ok();
    BigNum::from_slice(&sig[32..]).unwrap() > half
}
trait Half { fn rshift1_(&mut self) -> Result<(), ()>; }
impl Half for BigNum {
    fn rshift1_(&mut self) -> Result<(), ()> {
        let mut r = BigNum::new().unwrap();
        r.rshift1(self).unwrap();
        *self = r;
        Ok(())
    }
}
fn negated(sig: &[u8]) -> Vec<u8> {
    let s = &order() - &BigNum::from_slice(&sig[32..]).unwrap();
    [sig[..32].to_vec(), pad(&s)].concat()
}
fn low(sig: &[u8]) -> Vec<u8> { if high(sig) { negated(sig) } else { sig.to_vec() } }
/// Secrets at the edges of the range besides ordinary ones.
pub fn ec_secret(i: usize) -> Vec<u8> {
    match i {
        0 => bytes(32, 1),
        1 => bytes(32, 2),
        2 => { let mut v = vec![0; 31]; v.push(1); v }
        _ => { let mut n = order(); n.sub_word(1).unwrap(); pad(&n) }
    }
}
fn ec_matrix(c: &mut Ctx) -> R {
    let s = EcdsaSecp256k1Sha256::new();
    let (i, lm) = (c.choose("key", 4), c.choose("message length", 140));
    c.state(&(i, lm));
    let (secret, m) = (ec_secret(i), bytes(lm, i + lm));
    let sig = s.sign(&m, &sk(&secret)).map_err(|e| Violation { key: "ec:sign".into(), msg: e.to_string() })?;
    let point = ec_point(&secret);
    c.ensure(sig.len() == 64 && !high(&sig) && ec_verify(&point, &m, &sig), "ec:sign", || format!("key {} message of {}: OpenSSL refuses it", i, lm))?;
    let sg = sk(&secret);
    let w = Signer::new(&s, &sg);
    c.ensure(w.get_public_key().ok() == Some(pk(&ec_bytes(&point, true))), "ec:signer", || "Signer's public key".into())?;
    let theirs = low(&ec_sign(&secret, &m));
    for sig in &[&sig, &theirs] {
        for j in 0..4 {
            for comp in &[true, false] {
                for l in &[lm, lm + 1, lm ^ 1, 0] {
                    let m2 = bytes(*l, i + l);
                    c.step();
                    let want = i == j && m2 == m;
                    let got = judge(guard(|| s.verify(&m2, sig, &pk(&ec_bytes(&ec_point(&ec_secret(j)), *comp)))));
                    c.ensure(got == Ok(want), "ec:verify", || format!("key {}/{} message {}/{}: {:?}", i, j, lm, l, got))?;
                }
            }
        }
    }
    c.outcome("ok");
    Ok(())
}
fn ec_tamper(c: &mut Ctx) -> R {
    let s = EcdsaSecp256k1Sha256::new();
    let i = c.choose("key", 4);
    let lm = c.pick("message length", &[0usize, 1, 40]);
    let kind = c.choose("alteration", 5);
    c.state(&(i, lm, kind));
    let (secret, m) = (ec_secret(i), bytes(lm, 3));
    let point = ec_point(&secret);
    let p = ec_bytes(&point, true);
    let sig = low(&ec_sign(&secret, &m));
    let mut refuse = |c: &mut Ctx, m: &[u8], sig: &[u8], p: &[u8], what: String| -> R {
        c.step();
        match judge(guard(|| s.verify(m, sig, &pk(p)))) {
            Ok(false) => Ok(()),
            Ok(true) => violation("ec:tampered", format!("{}: accepted", what)),
            Err(e) => violation("ec:panic", format!("{}: {}", what, e)),
        }
    };
    match kind {
        0 => for b in 0..512 { refuse(c, &m, &flip(&sig, b), &p, format!("bit {} of the signature flipped", b))? },
        1 => for b in 0..264 {
            let q = flip(&p, b);
            if q != p { refuse(c, &m, &sig, &q, format!("bit {} of the key flipped", b))? }
        },
        2 => for b in 0..m.len() * 8 { refuse(c, &flip(&m, b), &sig, &p, format!("bit {} of the message flipped", b))? },
        3 => for l in 0..130 {
            if l != 64 { let mut x = sig.clone(); x.resize(l, 0); refuse(c, &m, &x, &p, format!("signature of {} bytes", l))?; }
            if l != 33 { let mut x = p.clone(); x.resize(l, 0); refuse(c, &m, &sig, &x, format!("public key of {} bytes", l))?; }
        },
        _ => {
            // the other signature of the pair verifies only once normalised
            let hi = negated(&sig);
            refuse(c, &m, &hi, &p, "s in the upper half".into())?;
            for x in &[&hi, &sig] {
                let mut y = x.to_vec();
                let r = guard(|| s.normalize_s(&mut y).is_ok());
                c.ensure(r == Ok(true) && y == sig, "ec:normalize", || "normalize_s".into())?;
                c.ensure(judge(guard(|| s.verify(&m, &y, &pk(&p)))) == Ok(true), "ec:normalize", || "refused once normalised".into())?;
            }
            for l in 0..130 {
                if l != 64 {
                    let mut y = sig.clone(); y.resize(l, 0);
                    let r = guard(|| s.normalize_s(&mut y).is_ok());
                    c.ensure(r == Ok(false), "ec:normalize", || format!("normalize_s of {} bytes: {:?}", l, r))?;
                }
            }
            let zero = vec![0u8; 32];
            let n = pad(&order());
            for x in &[[&sig[..32], &zero[..]].concat(), [&zero[..], &sig[32..]].concat(), vec![0; 64], [&n[..], &sig[32..]].concat(), [&sig[..32], &n[..]].concat(), vec![255; 64]] {
                refuse(c, &m, x, &p, format!("signature {}", hexs(x)))?;
            }
        }
    }
    c.outcome("refused");
    Ok(())
}
fn ec_keys(c: &mut Ctx) -> R {
    let s = EcdsaSecp256k1Sha256::new();
    let l = c.choose("length", 131);
    c.state(&l);
    let seed = bytes(l, 7);
    let gen = |x: &[u8]| guard(|| s.keypair(Some(KeyGenOption::UseSeed(x.to_vec()))).map_err(|e| e.to_string()));
    match gen(&seed) {
        Err(p) => return violation("ec:seed:panic", format!("a seed of {} bytes: panic: {}", l, p)),
        Ok(Err(_)) => c.ensure(l < 32, "ec:seed", || format!("a seed of {} bytes is refused", l))?,
        Ok(Ok((p1, k1))) => {
            c.ensure(gen(&seed) == Ok(Ok((p1.clone(), k1.clone()))), "ec:seed", || "the same seed gives other keys".into())?;
            c.ensure(k1.len() == 32 && p1[..] == ec_bytes(&ec_point(&k1[..]), true)[..], "ec:pair", || "public key is not that of the secret".into())?;
            for b in 0..l * 8 {
                if b % 8 != 3 { continue }
                c.step();
                let (p2, _) = gen(&flip(&seed, b)).unwrap().unwrap();
                if p2 == p1 {
                    c.soft(if b >= 256 { "ec:seed:tail" } else { "ec:seed" }, format!("a seed of {} bytes with bit {} flipped gives the same key", l, b));
                    break;
                }
            }
        }
    }
    let (p3, k3) = s.keypair(None).unwrap();
    let (p4, _) = s.keypair(None).unwrap();
    c.ensure(p3 != p4 && p3[..] == ec_bytes(&ec_point(&k3[..]), true)[..], "ec:random", || "generated keys".into())?;
    let given = bytes(l, 9);
    for (how, r) in vec![
        ("keypair", guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&given)))).is_ok())),
        ("sign", guard(|| s.sign(b"m", &sk(&given)).is_ok())),
        ("Signer::get_public_key", guard(|| Signer::new(&s, &sk(&given)).get_public_key().is_ok())),
    ] {
        c.step();
        c.ensure(r == Ok(l == 32), if r.is_err() { "ec:secret:panic" } else { "ec:secret" }, || format!("{} with a secret key of {} bytes: {:?}", how, l, r))?;
    }
    c.outcome("ok");
    Ok(())
}
/// Public keys in both encodings, and every other first byte or flipped bit.
fn ec_parsing(c: &mut Ctx) -> R {
    let s = EcdsaSecp256k1Sha256::new();
    let i = c.choose("key", 4);
    let comp = c.flag("compressed");
    let kind = c.choose("alteration", 4);
    c.state(&(i, comp, kind));
    let secret = ec_secret(i);
    let point = ec_point(&secret);
    let good = ec_bytes(&point, comp);
    let mut all: Vec<Vec<u8>> = vec![];
    match kind {
        0 => {
            let p = s.parse(&good).map_err(|e| Violation { key: "ec:parse".into(), msg: e.to_string() })?;
            c.ensure(p[..] == ec_bytes(&point, true)[..] && s.public_key_compressed(&p) == ec_bytes(&point, true) && s.public_key_uncompressed(&p) == ec_bytes(&point, false) && s.public_key_uncompressed(&pk(&good)) == ec_bytes(&point, false), "ec:parse", || "encodings differ".into())?;
            let (p, k) = s.keypair(Some(KeyGenOption::FromSecretKey(sk(&secret)))).unwrap();
            c.ensure(p[..] == ec_bytes(&point, true)[..] && k[..] == secret[..], "ec:secret", || "keys given back differ".into())?;
            let n = order();
            for bad in vec![vec![0; 32], pad(&n), vec![255; 32]] {
                let r = guard(|| (s.keypair(Some(KeyGenOption::FromSecretKey(sk(&bad)))).is_ok(), s.sign(b"m", &sk(&bad)).is_ok()));
                c.ensure(r == Ok((false, false)), "ec:secret", || format!("secret key {}: {:?}", hexs(&bad), r))?;
            }
        }
        1 => for b in 0..good.len() * 8 { all.push(flip(&good, b)) },
        2 => for b in 0..=255u8 { let mut x = good.clone(); x[0] = b; all.push(x) },
        _ => for l in 0..140 { let mut x = good.clone(); x.resize(l, 0); all.push(x); },
    }
    for x in all {
        c.step();
        let want = ec_parse(&x).map(|p| ec_bytes(&p, true));
        let got = guard(|| s.parse(&x).ok().map(|p| p[..].to_vec()));
        c.ensure(got == Ok(want.clone()), "ec:parse", || format!("{}: {:?} instead of {:?}", hexs(&x), got, want))?;
    }
    c.outcome("ok");
    Ok(())
}
/// The scheme object itself goes through serialization (in a process of its own: it used to recurse without end).
fn serial(c: &mut Ctx) -> R {
    let n = c.choose("format", 1);
    c.state(&n);
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("SYM_CHILD", "serial").output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    c.step();
    c.ensure(o.status.success() && out.trim() == "ok", "ec:serialize", || format!("{:?} {}", o.status, out))?;
    c.outcome("ok");
    Ok(())
}
pub fn serial_child() {
    let s = EcdsaSecp256k1Sha256::new();
    let j = serde_json::to_string(&s).unwrap();
    let t: EcdsaSecp256k1Sha256 = serde_json::from_str(&j).unwrap();
    let (p, k) = t.keypair(None).unwrap();
    let sig = s.sign(b"m", &k).unwrap();
    if t.verify(b"m", &sig, &p).unwrap() {
        println!("ok");
    }
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one key with one length of message (or one class of alteration, all bits and lengths of it run through within). A state is one combination of choices, a transition one call judged.".into(),
        assumptions: vec!["the oracle is OpenSSL's Ed25519 and secp256k1; Ed25519 public keys of small order are not judged (RFC 8032 does not exclude them)".into()],
        scenarios: vec![
            Scenario::new("ed-matrix", "4 keys x 140 lengths of message, each verified with 4 keys x 4 messages", ed_matrix),
            Scenario::new("ed-tamper", "3 keys x 3 messages x every bit of signature, key and message, every length, s + kL", ed_tamper),
            Scenario::new("ed-keys", "seeds, secret keys and key material of 0..130 bytes", ed_keys),
            Scenario::new("ec-matrix", "4 keys x 140 lengths of message, own and OpenSSL's signature, 4 keys in both encodings x 4 messages", ec_matrix),
            Scenario::new("ec-tamper", "4 keys x 3 messages x every bit of signature, key and message, every length, both s, edge values", ec_tamper),
            Scenario::new("ec-keys", "seeds and secret keys of 0..130 bytes", ec_keys),
            Scenario::new("ec-parsing", "4 keys in both encodings x every bit, every first byte, every length 0..139", ec_parsing),
            Scenario::new("long", "both schemes x messages of 255 to 2^20 bytes, altered or cut at up to 68 places", long),
            Scenario::new("serialize", "the scheme through JSON", serial),
        ],
    }
}
