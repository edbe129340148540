//! K03: what is generated depends on all of the randomness it needs. The random source of the operating system is
//! replaced by one whose answers are enumerated: one stream, and each stream that differs from it in one bit.
use mc::*;
use rand::RngCore;
use std::collections::HashSet;
use ursa::bls::{Generator, SignKey};
use ursa::cl::{new_nonce, prover::Prover};
use ursa::encryption::symm::prelude::*;
use ursa::kex::secp256k1::EcdhSecp256k1Sha256;
use ursa::kex::x25519::X25519Sha256;
use ursa::kex::KeyExchangeScheme;
use ursa::pair::{GroupOrderElement, PointG1, PointG2};
use ursa::bn::BigNumber;
use ursa::sharing::shamir::split_secret;
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::secp256k1::EcdsaSecp256k1Sha256;
use ursa::signatures::{bls, SignatureScheme};

type Gen = fn() -> Vec<u8>;
/// What is generated straight from the source: a name, the bits it must depend on, what is made.
fn direct() -> Vec<(&'static str, usize, Gen)> {
    macro_rules! cipher { ($v:ident, $t:ident, $k:expr, $n:expr) => {
        $v.push((concat!(stringify!($t), " key"), $k * 8, (|| $t::key_gen().unwrap().to_vec()) as Gen));
        $v.push((concat!(stringify!($t), " default key"), $k * 8, || SymmetricEncryptor::<$t>::default().encrypt(&[3u8; $n][..], &[][..], &[0u8; 64][..]).unwrap()));
        $v.push((concat!(stringify!($t), " nonce"), $n * 8, || $t::nonce_gen().unwrap().to_vec()));
        $v.push((concat!(stringify!($t), " encryption"), $n * 8, || SymmetricEncryptor::<$t>::new_with_key([3u8; $k]).unwrap().encrypt_easy(&b"a"[..], &[5u8; 40][..]).unwrap()));
        $v.push((concat!(stringify!($t), " stream"), $n * 8, || { let mut o = vec![]; SymmetricEncryptor::<$t>::new_with_key([3u8; $k]).unwrap().encrypt_buffer(&b"a"[..], &mut &[5u8; 40][..], &mut o).unwrap(); o }));
    } }
    let mut v: Vec<(&'static str, usize, Gen)> = vec![
        ("ed25519 key", 256, || Ed25519Sha512::new().keypair(None).unwrap().1[..].to_vec()),
        ("ecdsa key", 256, || EcdsaSecp256k1Sha256::new().keypair(None).unwrap().1[..].to_vec()),
        ("x25519 key", 251, || X25519Sha256::new().keypair(None).unwrap().1[..].to_vec()),
        ("x25519 public key", 251, || X25519Sha256::new().keypair(None).unwrap().0[..].to_vec()),
        ("ecdh key", 256, || EcdhSecp256k1Sha256::new().keypair(None).unwrap().1[..].to_vec()),
        ("nonce of the CL protocols", 80, || new_nonce().unwrap().to_dec().unwrap().into_bytes()),
        ("master secret", 256, || serde_json::to_vec(&Prover::new_master_secret().unwrap()).unwrap()),
        ("blinding of a share", 256, || {
            let p = BigNumber::from_dec("115792089237316195423570985008687907853269984665640564039457584007908834671663").unwrap();
            split_secret(&[5u8][..], 2, 2, &p).unwrap()[0].to_bytes()
        }),
    ];
    cipher!(v, Aes128CbcHmac256, 32, 16);
    cipher!(v, Aes256CbcHmac512, 64, 16);
    cipher!(v, Aes128Gcm, 16, 12);
    cipher!(v, Aes256Gcm, 32, 12);
    cipher!(v, ChaCha20Poly1305, 32, 12);
    cipher!(v, XChaCha20Poly1305, 32, 24);
    v
}

/// What is generated from the thread's own generator, which the source seeds.
fn threaded() -> Vec<(&'static str, Gen)> {
    vec![
        ("element of the group order", || GroupOrderElement::new().unwrap().to_bytes().unwrap()),
        ("point of the first group", || PointG1::new().unwrap().to_bytes().unwrap()),
        ("point of the second group", || PointG2::new().unwrap().to_bytes().unwrap()),
        ("sign key (BN254)", || SignKey::new(None).unwrap().as_bytes().to_vec()),
        ("generator (BN254)", || Generator::new().unwrap().as_bytes().to_vec()),
        ("BLS key", || bls::normal::Bls::new().keypair(None).unwrap().1[..].to_vec()),
        ("BLS key in the other group", || bls::small::Bls::new().keypair(None).unwrap().1[..].to_vec()),
        ("BLS key for a generator", || bls::normal::generate(&bls::normal::Generator::generator()).1.to_bytes()),
        ("BLS key in the other group for a generator", || bls::small::generate(&bls::small::Generator::generator()).1.to_bytes()),
    ]
}
use amcl_wrapper::group_elem::GroupElement;
fn stream(n: usize) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(151).wrapping_add(77) ^ (i >> 5) as u8).collect() }
/// Made from this stream: the result, and how much of it was drawn.
fn from(script: &[u8], g: Gen) -> Result<(Vec<u8>, usize), String> {
    rng::seed(1);
    rng::clear_script();
    rng::script(script);
    let d = rng::drawn();
    let r = guard(g);
    let n = (rng::drawn() - d) as usize;
    rng::clear_script();
    r.map(|r| (r, n))
}
fn bits(c: &mut Ctx) -> R {
    let l = direct();
    let i = c.choose("generated", l.len());
    let (name, need, g) = l[i];
    c.state(&i);
    // (whatever is drawn once only, such as the keys of hash tables, is drawn first)
    let _ = from(&stream(4096), g);
    let base = stream(4096);
    let (a, n) = match from(&base, g) { Ok(x) => x, Err(p) => return violation("panic", format!("{}: {}", name, p)) };
    c.ensure(from(&base, g).map(|x| x.0) == Ok(a.clone()), "same", || format!("{}: differs for the same random numbers", name))?;
    let mut seen = HashSet::new();
    seen.insert(a);
    for b in 0..n.min(4096) * 8 {
        let mut s = base.clone();
        s[b / 8] ^= 1 << (b % 8);
        c.step();
        match from(&s, g) {
            Ok((x, _)) => { seen.insert(x); }
            Err(p) => return violation("panic", format!("{}: {}", name, p)),
        }
    }
    c.ensure(seen.len() > need, "entropy", || format!("{}: depends on {} of {} bits drawn, not {}", name, seen.len() - 1, n * 8, need))?;
    c.outcome("every bit counts");
    Ok(())
}
fn elsewhere<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T { std::thread::spawn(f).join().unwrap() }
fn seeds(c: &mut Ctx) -> R {
    let l = threaded();
    let i = c.choose("generated", l.len());
    let (name, g) = l[i];
    c.state(&i);
    let mut seen = HashSet::new();
    for b in 0..257 {
        let mut s = stream(32);
        if b < 256 { s[b / 8] ^= 1 << (b % 8) }
        c.step();
        let r = elsewhere(move || { rng::seed(1); rng::script(&s); rand::thread_rng().next_u32(); guard(g) });
        match r { Ok(x) => { seen.insert(x); } Err(p) => return violation("panic", format!("{}: {}", name, p)) }
    }
    c.ensure(seen.len() == 257, "entropy", || format!("{}: 257 seeds give {} results", name, seen.len()))?;
    // how much of the stream is taken
    let at = |g: Option<Gen>| elsewhere(move || {
        rng::seed(1);
        rng::script(&stream(32));
        rand::thread_rng().next_u32();
        if let Some(g) = g { let _ = guard(g); let mut b = [0; 16]; rand::thread_rng().fill_bytes(&mut b); b.to_vec() } else { let mut b = vec![0; 60000]; rand::thread_rng().fill_bytes(&mut b); b }
    });
    let (all, next) = (at(None), at(Some(g)));
    let taken = all.windows(16).position(|w| w == &next[..]);
    c.ensure(taken.map_or(true, |t| t >= 32), "entropy", || format!("{}: made from {:?} bytes", name, taken))?;
    c.outcome(if taken.is_some() { "taken" } else { "not from the thread's generator" });
    Ok(())
}
/// One after another, and at the same time: nothing comes twice.
fn repeats(c: &mut Ctx) -> R {
    let l: Vec<(&'static str, Gen)> = direct().into_iter().map(|x| (x.0, x.2)).chain(threaded()).collect();
    let i = c.choose("generated", l.len());
    let (name, g) = l[i];
    let n = c.q(40, 400);
    c.state(&i);
    rng::seed(5);
    let mut seen = HashSet::new();
    for _ in 0..n { c.step(); match guard(g) { Ok(x) => { seen.insert(x); } Err(p) => return violation("panic", format!("{}: {}", name, p)) } }
    let hs: Vec<_> = (0..4u64).map(|t| std::thread::spawn(move || { rng::seed(100 + t); (0..5).map(|_| g()).collect::<Vec<_>>() })).collect();
    for h in hs { for x in h.join().unwrap() { c.step(); seen.insert(x); } }
    c.ensure(seen.len() == n + 20, "repeated", || format!("{}: {} different ones of {}", name, seen.len(), n + 20))
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one kind of key, nonce or blinding, generated from one stream of random numbers, from every stream that differs from it in a single bit, and again and again".into(),
        assumptions: vec!["the source is uniform; a result that changes with each of n bits, to n different results, is taken to depend on n bits".into(), "of what is made through rand::thread_rng the seed of that generator is varied, and how much is drawn from it is measured".into()],
        scenarios: vec![
            Scenario::new("bits", "38 generators x every bit of what each draws", bits),
            Scenario::new("seeds", "9 generators x every bit of the seed of the thread's generator", seeds),
            Scenario::new("repeats", "47 generators x 40 (400) in a row and 4 threads", repeats),
        ],
    }
}
