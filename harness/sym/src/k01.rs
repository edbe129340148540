//! K01: X25519 and ECDH over secp256k1, against OpenSSL as oracle; conversion of signing keys; keys as JSON.
use crate::s01::*;
use mc::*;
use openssl::bn::{BigNum, BigNumContext};
use openssl::derive::Deriver;
use openssl::ec::EcPoint;
use openssl::pkey::{Id, PKey};
use openssl::sha::sha256;
use ursa::kex::secp256k1::EcdhSecp256k1Sha256;
use ursa::kex::x25519::X25519Sha256;
use ursa::kex::KeyExchangeScheme;
use ursa::keys::{KeyGenOption, MacKey, PrivateKey, PublicKey, SessionKey};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::SignatureScheme;

fn x_public(k: &[u8]) -> Vec<u8> {
    PKey::private_key_from_raw_bytes(k, Id::X25519).unwrap().raw_public_key().unwrap()
}
/// The session key, `None` where the raw secret would be zero.
fn x_shared(k: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    let k = PKey::private_key_from_raw_bytes(k, Id::X25519).unwrap();
    let p = PKey::public_key_from_raw_bytes(p, Id::X25519).unwrap();
    let mut d = Deriver::new(&k).unwrap();
    d.set_peer(&p).ok()?;
    d.derive_to_vec().ok().map(|x| sha256(&x).to_vec())
}
fn e_shared(k: &[u8], p: &EcPoint) -> Vec<u8> {
    let g = group();
    let mut r = EcPoint::new(&g).unwrap();
    r.mul(&g, p, &BigNum::from_slice(k).unwrap(), &BigNumContext::new().unwrap()).unwrap();
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    r.affine_coordinates(&g, &mut x, &mut y, &mut BigNumContext::new().unwrap()).unwrap();
    pad(&x)
}
fn x_pairs(c: &mut Ctx) -> R {
    let s = X25519Sha256::new();
    let (i, j) = (c.choose("one", 8), c.choose("other", 8));
    c.state(&(i, j));
    let key = |i: usize| match i { 0 => vec![0; 32], 1 => vec![255; 32], _ => bytes(32, i) };
    let (a, b) = (key(i), key(j));
    let (pa, ka) = s.keypair(Some(KeyGenOption::FromSecretKey(sk(&a)))).unwrap();
    let (pb, kb) = s.keypair(Some(KeyGenOption::FromSecretKey(sk(&b)))).unwrap();
    c.ensure(pa[..] == x_public(&a)[..], "x:public", || "public key is not RFC 7748's".into())?;
    let s1 = s.compute_shared_secret(&ka, &pb).map_err(|e| e.to_string());
    let s2 = s.compute_shared_secret(&kb, &pa).map_err(|e| e.to_string());
    c.steps(4);
    c.ensure(s1.is_ok() && s1 == s2 && s1.as_ref().ok().map(|x| x[..].to_vec()) == x_shared(&a, &pb[..]), "x:shared", || format!("{:?} {:?}", s1, s2))?;
    // with the secret as given, too: clamped or not, it is the same key
    let s3 = s.compute_shared_secret(&sk(&a), &pb).map_err(|e| e.to_string());
    c.ensure(s3 == s1, "x:shared", || "an unclamped secret gives another session key".into())?;
    // every single-bit change of the public key changes the session key, except the top bit, which is ignored
    for b in 0..256 {
        c.step();
        let q = flip(&pb[..], b);
        let r = guard(|| s.compute_shared_secret(&ka, &pk(&q)).ok().map(|x| x[..].to_vec()));
        let want = x_shared(&a, &q);
        c.ensure(r == Ok(want.clone()) || want.is_none() && r.is_ok(), "x:shared", || format!("bit {} of the peer's key flipped: {:?}", b, r))?;
    }
    c.outcome("ok");
    Ok(())
}
fn x_keys(c: &mut Ctx) -> R {
    let s = X25519Sha256::new();
    let l = c.choose("length", 131);
    c.state(&l);
    let gen = |x: &[u8]| guard(|| s.keypair(Some(KeyGenOption::UseSeed(x.to_vec()))).map_err(|e| e.to_string()));
    let seed = bytes(l, 7);
    let (p1, k1) = match gen(&seed) { Ok(Ok(x)) => x, o => return violation("x:seed", format!("seed of {}: {:?}", l, o)) };
    c.ensure(gen(&seed) == Ok(Ok((p1.clone(), k1.clone()))) && p1[..] == x_public(&k1[..])[..] && k1.len() == 32, "x:seed", || "seeded keys".into())?;
    for b in 0..l * 8 {
        if b % 8 == 5 {
            c.step();
            let (p2, _) = gen(&flip(&seed, b)).unwrap().unwrap();
            c.ensure(p1 != p2, "x:seed", || format!("seed of {} with bit {} flipped gives the same key", l, b))?;
        }
    }
    let (p3, k3) = s.keypair(None).unwrap();
    let (p4, _) = s.keypair(None).unwrap();
    c.ensure(p3 != p4 && p3[..] == x_public(&k3[..])[..], "x:random", || "generated keys".into())?;
    // secret and public keys of l bytes; longer secrets are read as an Ed25519 key: the first 32 bytes
    let given = bytes(l, 9);
    let r1 = guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&given)))).ok().map(|x| x.0[..].to_vec()));
    let r2 = guard(|| s.compute_shared_secret(&sk(&given), &p3).ok().map(|x| x[..].to_vec()));
    let r3 = guard(|| s.compute_shared_secret(&k3, &pk(&given)).ok().map(|x| x[..].to_vec()));
    let (w1, w2, w3) = if l >= 32 { (Some(x_public(&given[..32])), x_shared(&given[..32], &p3[..]), x_shared(&k3[..], &given[..32])) } else { (None, None, None) };
    c.steps(3);
    for (how, r, w) in vec![("keypair from a secret key", r1, w1), ("secret key", r2, w2), ("public key", r3, w3)] {
        match r {
            Err(p) => return violation("x:panic", format!("{} of {} bytes: panic: {}", how, l, p)),
            Ok(x) => c.ensure(x == w || (l > 32 && x.is_none()), "x:sizes", || format!("{} of {} bytes", how, l))?,
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Ed25519 keys become X25519 keys that belong together.
fn convert(c: &mut Ctx) -> R {
    let s = X25519Sha256::new();
    let (i, j) = (c.choose("one", 24), c.choose("other", 24));
    c.state(&(i, j));
    let conv = |i: usize| -> R<(PublicKey, PrivateKey)> {
        let k = ed_secret(&bytes(32, i));
        match (Ed25519Sha512::ver_key_to_key_exchange(&pk(&k[32..])), Ed25519Sha512::sign_key_to_key_exchange(&sk(&k))) {
            (Ok(p), Ok(q)) => Ok((p, q)),
            _ => violation("convert", "not converted"),
        }
    };
    let ((pa, ka), (pb, kb)) = (conv(i)?, conv(j)?);
    c.steps(3);
    c.ensure(x_public(&ka[..])[..] == pa[..], "convert", || format!("key {}: the halves do not belong together", i))?;
    let s1 = s.compute_shared_secret(&ka, &pb).ok();
    let s2 = s.compute_shared_secret(&kb, &pa).ok();
    c.ensure(s1.is_some() && s1 == s2, "convert", || "no common session key".into())?;
    if i == j {
        for l in 0..100 {
            c.step();
            let mut k = ed_secret(&bytes(32, i)); k.resize(l, 0);
            let mut p = ed_public(&bytes(32, i)); p.resize(l, 0);
            let r1 = guard(|| Ed25519Sha512::sign_key_to_key_exchange(&sk(&k)).ok());
            let r2 = guard(|| Ed25519Sha512::ver_key_to_key_exchange(&pk(&p)).ok());
            c.ensure(r1.is_ok() && (r1 == Ok(Some(ka.clone()))) == (l >= 32), "convert:sizes", || format!("secret key of {}: {:?}", l, r1.is_ok()))?;
            c.ensure(r2 == Ok(if l == 32 { Some(pa.clone()) } else { None }), "convert:sizes", || format!("public key of {}", l))?;
        }
        for b in 0..256 {
            // a flipped key is either no point, or converts by u = (1 + y) / (1 - y)
            let p = flip(&ed_public(&bytes(32, i)), b);
            let r = guard(|| Ed25519Sha512::ver_key_to_key_exchange(&pk(&p)).ok().map(|x| x[..].to_vec()));
            c.step();
            let q = |s: &str| BigNum::from_dec_str(s).unwrap();
            let mut y = p.clone(); y[31] &= 0x7f; y.reverse();
            let y = BigNum::from_slice(&y).unwrap();
            let (one, mut m) = (q("1"), BigNum::new().unwrap());
            let mut ctx = BigNumContext::new().unwrap();
            m.lshift(&one, 255).unwrap();
            let m = &m - &q("19");
            let (mut d, mut inv, mut u) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
            d.mod_sub(&one, &y, &m, &mut ctx).unwrap();
            inv.mod_inverse(&d, &m, &mut ctx).unwrap();
            u.mod_mul(&(&one + &y), &inv, &m, &mut ctx).unwrap();
            let mut u = pad(&u); u.reverse();
            c.ensure(r == Ok(None) || r == Ok(Some(u)), "convert:flip", || format!("bit {} flipped: {:?}", b, r))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
fn e_pairs(c: &mut Ctx) -> R {
    let s = EcdhSecp256k1Sha256::new();
    let (i, j) = (c.choose("one", 6), c.choose("other", 6));
    c.state(&(i, j));
    let key = |i: usize| if i < 4 { ec_secret(i) } else { bytes(32, i) };
    let (a, b) = (key(i), key(j));
    let (pa, ka) = s.keypair(Some(KeyGenOption::FromSecretKey(sk(&a)))).map_err(|e| Violation { key: "e:keypair".into(), msg: e.to_string() })?;
    let pb = ec_point(&b);
    c.ensure(pa[..] == ec_bytes(&ec_point(&a), true)[..] && ka[..] == a[..], "e:public", || "public key".into())?;
    let want = e_shared(&a, &pb);
    for comp in &[true, false] {
        let r = guard(|| s.compute_shared_secret(&ka, &pk(&ec_bytes(&pb, *comp))).ok().map(|x| x[..].to_vec()));
        c.step();
        c.ensure(r == Ok(Some(want.clone())), "e:shared", || format!("{:?}", r))?;
        // every flipped bit: another point's session key or an error
        let p = ec_bytes(&pb, *comp);
        for b in 0..p.len() * 8 {
            let q = flip(&p, b);
            c.step();
            let r = guard(|| s.compute_shared_secret(&ka, &pk(&q)).ok().map(|x| x[..].to_vec()));
            let w = ec_parse(&q).map(|x| e_shared(&a, &x));
            // hybrid encodings may be refused
            c.ensure(r == Ok(w.clone()) || (r == Ok(None) && q[0] > 4), "e:shared", || format!("bit {} flipped: {:?} instead of {:?}", b, r, w))?;
        }
    }
    let back = s.compute_shared_secret(&sk(&b), &pa).ok().map(|x| x[..].to_vec());
    c.ensure(back == Some(want), "e:shared", || "the two sides differ".into())?;
    c.outcome("ok");
    Ok(())
}
fn e_keys(c: &mut Ctx) -> R {
    let s = EcdhSecp256k1Sha256::new();
    let l = c.choose("length", 131);
    c.state(&l);
    let gen = |x: &[u8]| guard(|| s.keypair(Some(KeyGenOption::UseSeed(x.to_vec()))).map_err(|e| e.to_string()));
    let seed = bytes(l, 7);
    match gen(&seed) {
        Err(p) => return violation("e:seed:panic", format!("a seed of {} bytes: panic: {}", l, p)),
        Ok(Err(_)) => c.ensure(l < 32, "e:seed", || format!("a seed of {} bytes is refused", l))?,
        Ok(Ok((p1, k1))) => {
            c.ensure(gen(&seed) == Ok(Ok((p1.clone(), k1.clone()))) && p1[..] == ec_bytes(&ec_point(&k1[..]), true)[..], "e:seed", || "seeded keys".into())?;
            for b in 0..l * 8 {
                if b % 8 != 5 { continue }
                c.step();
                if gen(&flip(&seed, b)).unwrap().unwrap().0 == p1 {
                    c.soft(if b >= 256 { "e:seed:tail" } else { "e:seed" }, format!("a seed of {} bytes with bit {} flipped gives the same key", l, b));
                    break;
                }
            }
        }
    }
    let (p3, k3) = s.keypair(None).unwrap();
    let (p4, _) = s.keypair(None).unwrap();
    c.ensure(p3 != p4 && p3[..] == ec_bytes(&ec_point(&k3[..]), true)[..], "e:random", || "generated keys".into())?;
    let given = bytes(l, 9);
    let zero = vec![0u8; l];
    for (how, want, r) in vec![
        ("keypair from a secret key", l == 32, guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&given)))).is_ok())),
        ("keypair from zero", false, guard(|| s.keypair(Some(KeyGenOption::FromSecretKey(sk(&zero)))).is_ok())),
        ("secret key", l == 32, guard(|| s.compute_shared_secret(&sk(&given), &p3).is_ok())),
        ("zero as secret key", false, guard(|| s.compute_shared_secret(&sk(&zero), &p3).is_ok())),
        ("public key", false, guard(|| s.compute_shared_secret(&k3, &pk(&zero)).is_ok())),
    ] {
        c.step();
        match r {
            Err(p) => return violation("e:panic", format!("{} of {} bytes: panic: {}", how, l, p)),
            Ok(x) => c.ensure(x == want, "e:sizes", || format!("{} of {} bytes: {}", how, l, x))?,
        }
    }
    c.outcome("ok");
    Ok(())
}
fn json_keys(c: &mut Ctx) -> R {
    let l = c.choose("length", 70);
    let t = c.choose("type", 5);
    c.state(&(l, t));
    let b = bytes(l, 3);
    macro_rules! go { ($t:ident) => {{
        let v = serde_json::to_value(&$t(b.clone())).unwrap();
        c.ensure(v == json!(hex::encode(&b)), "json", || format!("{}", v))?;
        let x = serde_json::from_value::<$t>(v).ok();
        c.ensure(x.map(|x| x[..].to_vec()) == Some(b.clone()), "json", || "does not come back".into())?;
        for bad in &[format!("{}0", hex::encode(&b)), format!("x{}", hex::encode(&b)), format!("{}zz", hex::encode(&b))] {
            let r = guard(|| serde_json::from_value::<$t>(json!(bad)).is_ok());
            c.step();
            c.ensure(r == Ok(false), "json:malformed", || format!("{}: {:?}", bad, r))?;
        }
    }} }
    match t {
        0 => go!(PrivateKey),
        1 => go!(PublicKey),
        2 => go!(SessionKey),
        3 => go!(MacKey),
        _ => for o in vec![KeyGenOption::UseSeed(b.clone()), KeyGenOption::FromSecretKey(PrivateKey(b.clone()))] {
            let s = serde_json::to_string(&o).unwrap();
            c.step();
            c.ensure(serde_json::from_str::<KeyGenOption>(&s).ok().as_ref() == Some(&o), "json", || s)?;
        },
    }
    c.outcome("ok");
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one pair of keys (every bit of the peer's key flipped within), or keys of one length. A state is one combination of choices, a transition one call judged.".into(),
        assumptions: vec!["the oracle is OpenSSL's X25519 and secp256k1; where the raw X25519 secret is zero (public keys of small order) the result is not judged (RFC 7748 leaves the check optional)".into()],
        scenarios: vec![
            Scenario::new("x25519-pairs", "8 x 8 keys x every bit of the peer's key", x_pairs),
            Scenario::new("x25519-keys", "seeds, secret and public keys of 0..130 bytes", x_keys),
            Scenario::new("convert", "24 x 24 signing keys; every length and bit", convert),
            Scenario::new("secp256k1-pairs", "6 x 6 keys in both encodings x every bit of the peer's key", e_pairs),
            Scenario::new("secp256k1-keys", "seeds and secret keys of 0..130 bytes", e_keys),
            Scenario::new("json", "keys of 0..69 bytes x 5 types", json_keys),
        ],
    }
}
