//! K02: no block of memory is given back while it still holds (part of) a secret. A watching allocator looks at every
//! block that is freed, and at every block that is left behind by one that grows.
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ursa::encryption::symm::prelude::*;
use ursa::kex::secp256k1::EcdhSecp256k1Sha256;
use ursa::kex::x25519::X25519Sha256;
use ursa::kex::KeyExchangeScheme;
use ursa::keys::{KeyGenOption, MacKey, PrivateKey, PublicKey, SessionKey};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::secp256k1::EcdsaSecp256k1Sha256;
use ursa::signatures::{bls, SignatureScheme};

pub struct Watch;
/// Bytes in a row that count as part of a secret.
const PART: usize = 8;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<usize> = const { Cell::new(0) };
    static SEEN: Cell<usize> = const { Cell::new(0) };
    static SECRETS: RefCell<Option<HashSet<[u8; PART]>>> = const { RefCell::new(None) };
}
unsafe fn look(p: *const u8, n: usize) {
    let _ = ON.try_with(|on| {
        if !on.get() { return }
        SEEN.with(|s| s.set(s.get() + 1));
        if n < PART { return }
        let b = std::slice::from_raw_parts(p, n);
        SECRETS.with(|s| if let Ok(s) = s.try_borrow() {
            if let Some(s) = &*s { if b.windows(PART).any(|x| s.contains(x)) { LEFT.with(|l| l.set(n)) } }
        });
    });
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { look(p, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            // grown by moving, as it may be
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
            return q;
        }
        System.realloc(p, l, n)
    }
}
/// Runs `f` with these secrets: the size of a block that was freed with part of one in it, and how many were freed.
fn watch(secrets: &[&[u8]], f: impl FnOnce()) -> (Option<usize>, usize) {
    SECRETS.with(|s| *s.borrow_mut() = Some(secrets.iter().flat_map(|x| x.windows(PART)).map(|x| { let mut a = [0; PART]; a.copy_from_slice(x); a }).collect()));
    LEFT.with(|l| l.set(0));
    SEEN.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    ON.with(|o| o.set(false));
    drop(r);
    SECRETS.with(|s| *s.borrow_mut() = None);
    let n = LEFT.with(|l| l.get());
    (if n > 0 { Some(n) } else { None }, SEEN.with(|s| s.get()))
}
/// Bytes that are no pattern.
fn secret(n: usize, k: u64) -> Vec<u8> {
    let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1) ^ 0x1234_5678_9abc_def1;
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect()
}
fn clean(c: &mut Ctx, what: &str, secrets: &[&[u8]], f: impl FnOnce()) -> R {
    c.step();
    let (left, seen) = watch(secrets, f);
    c.steps(seen as u64);
    c.ensure(left.is_none(), &format!("left:{}", what), || format!("{}: a block of {} bytes was freed with part of a secret in it", what, left.unwrap()))
}
const LENS: [usize; 20] = [8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 70000];
struct Panicking<T>(T);
/// The containers of keys, and each way in which they can end.
fn containers(c: &mut Ctx) -> R {
    let ty = c.choose("type", 5);
    let n = c.pick("length", &LENS);
    let how = c.choose("end", 10);
    let extra = c.pick("spare", &[0usize, 1, 64]);
    c.state(&(ty, n, how, extra));
    let s = secret(n, 1);
    macro_rules! go { ($name:expr, $t:ident, $make:expr, $json:expr, $wipe:expr) => {{
        let make = || { let mut v = Vec::with_capacity(n + extra); v.extend_from_slice(&s); let f: fn(Vec<u8>) -> $t = $make; f(v) };
        let mut read: Option<$t> = if how == 7 { let t: Option<String> = $json; t.map(|t| serde_json::from_str(&t).expect("a key")) } else { None };
        clean(c, &format!("{}:{}", $name, ["drop", "zeroize", "replaced", "clone", "in a list", "boxed", "panic", "json", "forgotten option", "swapped"][how]), &[&s], || match how {
            0 => drop(make()),
            1 => { let wipe: fn(&mut $t) = $wipe; let mut k = make(); wipe(&mut k); std::mem::forget(k) }
            2 => { let mut k = make(); k = { let _ = &k; make() }; drop(k) }
            3 => { let k = make(); let b = copy(&k); drop(k); drop(b) }
            4 => { let mut v = vec![make(), make()]; v.truncate(1); v.push(make()); v.clear() }
            5 => { let k: Box<$t> = Box::new(make()); drop(k) }
            6 => { let p = Panicking(make()); let _r = catch_unwind(AssertUnwindSafe(move || { let p = p; if n > 0 { std::panic::resume_unwind(Box::new(1u8)) } drop(p.0) })); }
            7 => drop(read.take()),
            8 => { let mut o = Some(make()); o.take(); }
            _ => { let (mut a, mut b) = (make(), make()); std::mem::swap(&mut a, &mut b); drop(b); drop(a) }
        })
    }} }
    trait Copyable { fn copy(&self) -> Self; }
    fn copy<T: Copyable>(t: &T) -> T { t.copy() }
    impl Copyable for PrivateKey { fn copy(&self) -> Self { self.clone() } }
    impl Copyable for SessionKey { fn copy(&self) -> Self { self.clone() } }
    impl Copyable for MacKey { fn copy(&self) -> Self { self.clone() } }
    impl Copyable for KeyGenOption { fn copy(&self) -> Self { match self { KeyGenOption::UseSeed(s) => KeyGenOption::UseSeed(s.clone()), KeyGenOption::FromSecretKey(s) => KeyGenOption::FromSecretKey(s.clone()) } } }
    use zeroize::Zeroize;
    match ty {
        0 => go!("private key", PrivateKey, PrivateKey, Some(format!("\"{}\"", hex::encode(&s))), |k| k.zeroize()),
        1 => go!("session key", SessionKey, SessionKey, Some(format!("\"{}\"", hex::encode(&s))), |k| k.zeroize()),
        2 => go!("mac key", MacKey, MacKey, Some(format!("\"{}\"", hex::encode(&s))), |k| k.zeroize()),
        3 => go!("seed", KeyGenOption, KeyGenOption::UseSeed, None::<String>, |k| if let KeyGenOption::UseSeed(s) = k { s.zeroize() }),
        _ => go!("from secret key", KeyGenOption, |v| KeyGenOption::FromSecretKey(PrivateKey(v)), Some(format!("{{\"FromSecretKey\":\"{}\"}}", hex::encode(&s))), |k| if let KeyGenOption::FromSecretKey(s) = k { s.zeroize() }),
    }
}
type Made = Result<(PublicKey, PrivateKey), String>;
const SCHEMES: [&str; 6] = ["ed25519", "ecdsa", "bls", "bls in the other group", "x25519", "ecdh"];
fn keypair(k: usize, o: Option<KeyGenOption>) -> Made {
    let r = match k {
        0 => Ed25519Sha512::new().keypair(o),
        1 => EcdsaSecp256k1Sha256::new().keypair(o),
        2 => bls::normal::Bls::new().keypair(o),
        3 => bls::small::Bls::new().keypair(o),
        4 => X25519Sha256::new().keypair(o),
        _ => EcdhSecp256k1Sha256::new().keypair(o),
    };
    r.map_err(|_| String::new())
}
fn sign(k: usize, m: &[u8], sk: &PrivateKey) -> Option<Vec<u8>> {
    match k {
        0 => Ed25519Sha512::new().sign(m, sk).ok(),
        1 => EcdsaSecp256k1Sha256::new().sign(m, sk).ok(),
        2 => bls::normal::Bls::new().sign(m, sk).ok(),
        3 => bls::small::Bls::new().sign(m, sk).ok(),
        _ => None,
    }
}
/// What is made of secrets: keys, signatures, session keys.
fn operations(c: &mut Ctx) -> R {
    let k = c.choose("scheme", 6);
    let name = SCHEMES[k];
    match c.choose("operation", 6) {
        0 => {
            let n = c.pick("length of the seed", &LENS);
            c.state(&(k, 0, n));
            let s = secret(n, 2);
            let sk = guard(|| keypair(k, Some(KeyGenOption::UseSeed(s.clone())))).ok().and_then(|x| x.ok()).map_or(vec![], |x| x.1[..].to_vec());
            c.outcome(if sk.is_empty() { "refused" } else { "made" });
            let o = KeyGenOption::UseSeed(s.clone());
            clean(c, &format!("{}:from a seed", name), &[&s, secret_part(k, &sk)], || drop(keypair(k, Some(o))))
        }
        1 => {
            let (_, sk) = keypair(k, Some(KeyGenOption::UseSeed(secret(32, 3)))).expect("keys");
            let mut b = sk[..].to_vec();
            match c.choose("alter", 5) { 0 => {} 1 => { b.pop(); } 2 => b.push(1), 3 => b[0] = !b[0], _ => { let n = b.len(); b[n - 1] ^= 1 } }
            c.state(&(k, 1, &b));
            let o = KeyGenOption::FromSecretKey(PrivateKey(b.clone()));
            clean(c, &format!("{}:from a private key", name), &[secret_part(k, &b)], || drop(keypair(k, Some(o))))
        }
        2 => {
            c.state(&(k, 2));
            rng::seed(17);
            let sk = keypair(k, None).expect("keys").1;
            let (x, mut same) = (sk[..].to_vec(), false);
            clean(c, &format!("{}:fresh", name), &[secret_part(k, &x)], || { rng::seed(17); same = keypair(k, None).map_or(false, |y| y.1 == sk) })?;
            // (BLS keys come from a generator of their own)
            c.ensure(same || k == 2 || k == 3, "scripted", || format!("{}: a second key from the same random numbers differs", name))
        }
        3 => {
            let (_, sk) = keypair(k, Some(KeyGenOption::UseSeed(secret(32, 3)))).expect("keys");
            let n = c.pick("message", &[0usize, 1, 64, 1000]);
            c.state(&(k, 3, n));
            let m = vec![7; n];
            let x = sk[..].to_vec();
            clean(c, &format!("{}:sign", name), &[secret_part(k, &x)], || drop(sign(k, &m, &sk)))
        }
        4 => {
            let (pk, sk) = keypair(k, Some(KeyGenOption::UseSeed(secret(32, 3)))).expect("keys");
            c.state(&(k, 4));
            if k < 4 { return Ok(()) }
            let go = |sk: &PrivateKey, pk: &PublicKey| if k == 4 { X25519Sha256::new().compute_shared_secret(sk, pk).ok() } else { EcdhSecp256k1Sha256::new().compute_shared_secret(sk, pk).ok() };
            let s = go(&sk, &pk).expect("a session key")[..].to_vec();
            let x = sk[..].to_vec();
            clean(c, &format!("{}:exchange", name), &[secret_part(k, &x), &s], || drop(go(&sk, &pk)))
        }
        _ => {
            c.state(&(k, 5));
            if k != 0 { return Ok(()) }
            let (_, sk) = keypair(0, Some(KeyGenOption::UseSeed(secret(32, 3)))).expect("keys");
            let x = Ed25519Sha512::sign_key_to_key_exchange(&sk).expect("a key")[..].to_vec();
            let y = sk[..32].to_vec();
            clean(c, "ed25519:converted", &[&y, &x], || drop(Ed25519Sha512::sign_key_to_key_exchange(&sk)))?;
            clean(c, "ed25519:expanded", &[&y], || drop(Ed25519Sha512::expand_keypair(&y)))
        }
    }
}
/// The secret in the bytes of a private key, as far as ursa holds it: the scalars of the BLS signatures are amcl's.
fn secret_part(k: usize, b: &[u8]) -> &[u8] { match k { 0 => &b[..b.len().min(32)], 2 | 3 => &[], _ => b } }
fn ciphers(c: &mut Ctx) -> R {
    let a = c.choose("cipher", 6);
    let how = c.choose("use", 9);
    let n = c.pick("message", &[0usize, 1, 16, 1000]);
    c.state(&(a, how, n));
    let m = vec![1u8; n];
    macro_rules! go { ($t:ident, $kl:expr, $ty:expr, $name:expr) => {{
        type E = $t;
        let s = secret($kl, 5);
        let what = format!("{}:{}", $name, ["dropped", "boxed", "used", "streams", "default", "wiped", "cloned", "json", "generated"][how]);
        let e = || SymmetricEncryptor::<E>::new_with_key(&s).expect("a cipher");
        let text = format!("\"{}\"", hex::encode(&s));
        let mut same = true;
        let ty: Option<EncryptorType> = $ty;
        let mut one: Option<Box<E>> = if [5, 6, 7].contains(&how) { Some(Box::new(serde_json::from_str(&text).expect("a cipher"))) } else { None };
        rng::seed(23);
        let fresh = E::key_gen().map(|k| k.to_vec()).unwrap_or_default();
        clean(c, &what, &[if [4, 8].contains(&how) { &fresh } else { &s }], || match how {
            0 => drop(Box::new(e())),
            1 => if let Some(ty) = ty { let d = ty.gen_encryptor(&s); if let Ok(x) = d.encrypt_easy(b"a", &m) { let _ = d.decrypt_easy(b"a", &x); let _ = d.decrypt_easy(b"b", &x); } }
            2 => { let e = Box::new(e()); if let Ok(x) = e.encrypt_easy(&b"a"[..], &m) { let _ = e.decrypt_easy(&b"a"[..], &x); let _ = e.decrypt_easy(&b"b"[..], &x); } }
            3 => { let e = Box::new(e()); let mut o = vec![]; let _ = e.encrypt_buffer(&b"a"[..], &mut &m[..], &mut o); let mut p = vec![]; let _ = e.decrypt_buffer(&b"a"[..], &mut &o[..], &mut p); }
            4 => { rng::seed(23); drop(Box::new(SymmetricEncryptor::<E>::default())) }
            5 => { use zeroize::Zeroize; let mut b = one.take().expect("a cipher"); b.zeroize(); let p = Box::into_raw(b) as *mut std::mem::ManuallyDrop<E>; drop(unsafe { Box::from_raw(p) }) }
            6 => { let b = one.take().expect("a cipher"); let d = b.clone(); drop(b); drop(d) }
            7 => drop(one.take()),
            _ => { rng::seed(23); same = E::key_gen().map(|k| k.as_slice() == &fresh[..]).unwrap_or(false) }
        })?;
        c.ensure(same, "scripted", || what.clone())
    }} }
    match a {
        0 => go!(Aes128CbcHmac256, 32, Some(EncryptorType::Aes128CbcHmac256), "aes-128-cbc-hmac-256"),
        1 => go!(Aes256CbcHmac512, 64, Some(EncryptorType::Aes256CbcHmac512), "aes-256-cbc-hmac-512"),
        2 => go!(Aes128Gcm, 16, Some(EncryptorType::Aes128Gcm), "aes-128-gcm"),
        3 => go!(Aes256Gcm, 32, Some(EncryptorType::Aes256Gcm), "aes-256-gcm"),
        4 => go!(XChaCha20Poly1305, 32, Some(EncryptorType::XChaCha20Poly1305), "xchacha20poly1305"),
        _ => go!(ChaCha20Poly1305, 32, None, "chacha20poly1305"),
    }
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution lets one object that holds a secret live and end, or performs one operation on secrets, under an allocator that looks at every block of memory at the moment it is freed: none holds 8 bytes in a row of the secret".into(),
        assumptions: vec!["registers, the stack and memory that libsecp256k1 manages are not looked at".into(), "the scalars of BLS keys belong to amcl_wrapper, which copies them freely: only their seeds are looked for".into(), "the text of a key, and reading it, are not looked at".into()],
        scenarios: vec![
            Scenario::new("containers", "5 kinds of objects x 20 lengths up to 70000 bytes x 10 ways to end x 3 capacities", containers),
            Scenario::new("operations", "6 schemes x keys from seeds of 20 lengths, from private keys (5 alterations), fresh; signatures of 4 messages; exchange; conversion", operations),
            Scenario::new("ciphers", "6 ciphers x 9 uses x 4 messages", ciphers),
        ],
    }
}
