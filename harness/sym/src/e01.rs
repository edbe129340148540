//! E01: authenticated encryption, through every interface, against OpenSSL as oracle.
use mc::*;
use openssl::hash::MessageDigest;
use openssl::pkey::PKey;
use openssl::sign::Signer;
use openssl::symm::{encrypt, encrypt_aead, Cipher};
use std::io::{self, Read, Write};
use std::str::FromStr;
use std::sync::Arc;
use ursa::encryption::symm::prelude::*;
use ursa::encryption::symm::{DynEncryptor, EncryptorType};

pub type F<T> = Box<dyn Fn(T) -> Option<Vec<u8>> + Send + Sync>;
/// One cipher seen through one interface.
trait Iface: Send + Sync {
    fn enc(&self, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>>;
    fn dec(&self, key: &[u8], n: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>>;
    fn enc_easy(&self, key: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>>;
    fn dec_easy(&self, key: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>>;
}
macro_rules! ifaces {
    ($t:ident, $s:ident, $b:ident, $j:ident) => {
        struct $s;
        impl Iface for $s {
            fn enc(&self, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> {
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.encrypt(n, a, m).ok()
            }
            fn dec(&self, key: &[u8], n: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> {
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.decrypt(n, a, c).ok()
            }
            fn enc_easy(&self, key: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> {
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.encrypt_easy(a, m).ok()
            }
            fn dec_easy(&self, key: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> {
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.decrypt_easy(a, c).ok()
            }
        }
        /// The trait's streaming form, and the detached form with the nonce as bytes.
        struct $b;
        impl Iface for $b {
            fn enc(&self, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> {
                let e: $t = serde_json::from_value(json!(hex::encode(key))).ok()?;
                DynEncryptor::encrypt(&e, n, a, m).ok()
            }
            fn dec(&self, key: &[u8], n: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> {
                let e: $t = serde_json::from_value(json!(hex::encode(key))).ok()?;
                DynEncryptor::decrypt(&e, n, a, c).ok()
            }
            fn enc_easy(&self, key: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> {
                let mut o = vec![];
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.encrypt_buffer(a, &mut &m[..], &mut o).ok()?;
                Some(o)
            }
            fn dec_easy(&self, key: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> {
                let mut o = vec![];
                SymmetricEncryptor::<$t>::new_with_key(key).ok()?.decrypt_buffer(a, &mut &c[..], &mut o).ok()?;
                Some(o)
            }
        }
        fn $j(key: &[u8], fault: usize, chunk: usize, dec: bool, a: &[u8], input: &[u8]) -> (bool, Vec<u8>) {
            let e = SymmetricEncryptor::<$t>::new_with_key(key).unwrap();
            let mut r = Faulty { data: input.to_vec(), pos: 0, chunk, fail: if fault == 1 { 0 } else if fault == 2 { 1 } else { usize::MAX }, calls: 0 };
            let mut o = FaultyOut { data: vec![], fail: fault == 3, chunk };
            let ok = if dec { e.decrypt_buffer(a, &mut r, &mut o).is_ok() } else { e.encrypt_buffer(a, &mut r, &mut o).is_ok() };
            (ok, o.data)
        }
    };
}
ifaces!(Aes128CbcHmac256, S1, B1, j1);
ifaces!(Aes256CbcHmac512, S2, B2, j2);
ifaces!(Aes128Gcm, S3, B3, j3);
ifaces!(Aes256Gcm, S4, B4, j4);
ifaces!(XChaCha20Poly1305, S5, B5, j5);
ifaces!(ChaCha20Poly1305, S6, B6, j6);
struct Boxed(EncryptorType);
impl Boxed {
    fn e(&self, key: &[u8]) -> Option<Box<dyn DynEncryptor>> {
        if self.0.is_valid_keysize(key.len()) { Some(self.0.gen_encryptor(key)) } else { None }
    }
}
impl Iface for Boxed {
    fn enc(&self, key: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> { self.e(key)?.encrypt(n, a, m).ok() }
    fn dec(&self, key: &[u8], n: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> { self.e(key)?.decrypt(n, a, c).ok() }
    fn enc_easy(&self, key: &[u8], a: &[u8], m: &[u8]) -> Option<Vec<u8>> { self.e(key)?.encrypt_easy(a, m).ok() }
    fn dec_easy(&self, key: &[u8], a: &[u8], c: &[u8]) -> Option<Vec<u8>> { self.e(key)?.decrypt_easy(a, c).ok() }
}

struct Faulty { data: Vec<u8>, pos: usize, chunk: usize, fail: usize, calls: usize }
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.fail {
            return Err(io::Error::new(io::ErrorKind::Other, "fault"));
        }
        // every other call is interrupted when reading byte by byte: a reader may do that
        if self.chunk == 1 && self.calls % 2 == 0 && self.fail == usize::MAX {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = b.len().min(self.chunk).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct FaultyOut { data: Vec<u8>, fail: bool, chunk: usize }
impl Write for FaultyOut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.fail {
            return Err(io::Error::new(io::ErrorKind::Other, "fault"));
        }
        let n = b.len().min(self.chunk);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub struct Spec {
    pub name: &'static str,
    pub key: usize,
    pub nonce: usize,
    pub tag: usize,
    pub oracle: fn(&[u8], &[u8], &[u8], &[u8]) -> Vec<u8>,
}
fn gcm(c: Cipher, k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Vec<u8> {
    let mut tag = [0u8; 16];
    let mut o = encrypt_aead(c, k, Some(n), a, m, &mut tag).unwrap();
    o.extend_from_slice(&tag);
    o
}
fn cbc(c: Cipher, d: MessageDigest, k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Vec<u8> {
    let half = k.len() / 2;
    let mut o = encrypt(c, &k[..half], Some(n), m).unwrap();
    let p = PKey::hmac(&k[half..]).unwrap();
    let mut s = Signer::new(d, &p).unwrap();
    s.update(a).unwrap();
    s.update(n).unwrap();
    s.update(&o).unwrap();
    o.extend_from_slice(&s.sign_to_vec().unwrap());
    o
}
/// HChaCha20, written from its definition.
fn hchacha(k: &[u8], n: &[u8]) -> Vec<u8> {
    let w = |b: &[u8], i: usize| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 { s[4 + i] = w(k, i) }
    for i in 0..4 { s[12 + i] = w(n, i) }
    fn q(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        for (x, y) in &[(16, 12), (8, 7)] {
            s[a] = s[a].wrapping_add(s[b]);
            s[d] = (s[d] ^ s[a]).rotate_left(*x);
            s[c] = s[c].wrapping_add(s[d]);
            s[b] = (s[b] ^ s[c]).rotate_left(*y);
        }
    }
    for _ in 0..10 {
        for i in 0..4 { q(&mut s, i, 4 + i, 8 + i, 12 + i) }
        for i in 0..4 { q(&mut s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4) }
    }
    let mut o = vec![];
    for i in (0..4).chain(12..16) { o.extend_from_slice(&s[i].to_le_bytes()) }
    o
}
fn xchacha(k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> Vec<u8> {
    let sub = hchacha(k, &n[..16]);
    let mut iv = vec![0u8; 4];
    iv.extend_from_slice(&n[16..]);
    gcm(Cipher::chacha20_poly1305(), &sub, &iv, a, m)
}
pub fn specs() -> Vec<Spec> {
    vec![
        Spec { name: "aes-128-cbc-hmac-256", key: 32, nonce: 16, tag: 32, oracle: |k, n, a, m| cbc(Cipher::aes_128_cbc(), MessageDigest::sha256(), k, n, a, m) },
        Spec { name: "aes-256-cbc-hmac-512", key: 64, nonce: 16, tag: 64, oracle: |k, n, a, m| cbc(Cipher::aes_256_cbc(), MessageDigest::sha512(), k, n, a, m) },
        Spec { name: "aes-128-gcm", key: 16, nonce: 12, tag: 16, oracle: |k, n, a, m| gcm(Cipher::aes_128_gcm(), k, n, a, m) },
        Spec { name: "aes-256-gcm", key: 32, nonce: 12, tag: 16, oracle: |k, n, a, m| gcm(Cipher::aes_256_gcm(), k, n, a, m) },
        Spec { name: "xchacha20poly1305", key: 32, nonce: 24, tag: 16, oracle: xchacha },
        Spec { name: "chacha20poly1305", key: 32, nonce: 12, tag: 16, oracle: |k, n, a, m| gcm(Cipher::chacha20_poly1305(), k, n, a, m) },
    ]
}
fn bytes(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + salt * 31 + i * i) as u8).collect()
}
struct World {
    specs: Vec<Spec>,
    ifs: Vec<Vec<Box<dyn Iface>>>,
}
fn ty(k: usize) -> EncryptorType {
    [EncryptorType::Aes128CbcHmac256, EncryptorType::Aes256CbcHmac512, EncryptorType::Aes128Gcm, EncryptorType::Aes256Gcm, EncryptorType::XChaCha20Poly1305][k]
}
fn world() -> Arc<World> {
    Arc::new(World {
        specs: specs(),
        ifs: vec![
            vec![Box::new(S1), Box::new(B1), Box::new(Boxed(ty(0)))],
            vec![Box::new(S2), Box::new(B2), Box::new(Boxed(ty(1)))],
            vec![Box::new(S3), Box::new(B3), Box::new(Boxed(ty(2)))],
            vec![Box::new(S4), Box::new(B4), Box::new(Boxed(ty(3)))],
            vec![Box::new(S5), Box::new(B5), Box::new(Boxed(ty(4)))],
            vec![Box::new(S6), Box::new(B6)], // not an EncryptorType
        ],
    })
}
fn lens(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=c.q(66, 200)).collect();
    v.extend(&[127, 128, 129, 255, 256, 1000, 4096, 65536]);
    v
}
/// Every length of message and associated data: the standard's ciphertext, and back.
fn roundtrip(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 6);
    let i = c.choose("interface", w.ifs[k].len());
    let la = c.pick("associated data", &[0usize, 1, 15, 16, 17, 64, 300]);
    let s = &w.specs[k];
    let f = &w.ifs[k][i];
    c.state(&(k, i, la));
    for lm in lens(c) {
        let (key, n, a, m) = (bytes(s.key, 1), bytes(s.nonce, 2), bytes(la, 3), bytes(lm, 4));
        let what = || format!("{} interface {}: {} bytes with {} bytes of associated data", s.name, i, lm, la);
        let want = (s.oracle)(&key, &n, &a, &m);
        c.step();
        let got = guard(|| f.enc(&key, &n, &a, &m));
        if got != Ok(Some(want.clone())) {
            return violation("encrypt", format!("{}: not the standard's ciphertext: {:?}", what(), got.map(|x| x.map(|y| hexs(&y)))));
        }
        let back = guard(|| f.dec(&key, &n, &a, &want));
        if back != Ok(Some(m.clone())) {
            return violation(format!("decrypt:{}", s.name), format!("{}: does not decrypt: {:?}", what(), back));
        }
        let e = match guard(|| f.enc_easy(&key, &a, &m)) {
            Ok(Some(e)) => e,
            o => return violation("encrypt_easy", format!("{}: {:?}", what(), o)),
        };
        if e.len() != s.nonce + want.len() || e[s.nonce..] != (s.oracle)(&key, &e[..s.nonce], &a, &m)[..] {
            return violation("encrypt_easy", format!("{}: not nonce and ciphertext", what()));
        }
        let e2 = f.enc_easy(&key, &a, &m).unwrap_or_default();
        if e2.len() < s.nonce || e[..s.nonce] == e2[..s.nonce] {
            return violation("nonce", format!("{}: two encryptions under one nonce", what()));
        }
        for x in &[&e, &e2] {
            let back = guard(|| f.dec_easy(&key, &a, x));
            if back != Ok(Some(m.clone())) {
                return violation(format!("decrypt_easy:{}", s.name), format!("{}: does not decrypt: {:?}", what(), back));
            }
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Every single alteration of a ciphertext, its nonce, associated data or key is refused.
fn tamper(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 6);
    let i = c.choose("interface", w.ifs[k].len());
    let lm = c.pick("message", &[0usize, 1, 15, 16, 17, 40]);
    let la = c.pick("associated data", &[0usize, 1, 16, 33]);
    let s = &w.specs[k];
    let f = &w.ifs[k][i];
    let kind = c.choose("alteration", 8);
    c.state(&(k, i, lm, la, kind));
    let (key, n, a, m) = (bytes(s.key, 1), bytes(s.nonce, 2), bytes(la, 3), bytes(lm, 4));
    let ct = (s.oracle)(&key, &n, &a, &m);
    let mut easy = n.clone();
    easy.extend_from_slice(&ct);
    let both = |c: &mut Ctx, key: &[u8], n: &[u8], a: &[u8], ct: &[u8], what: String, vkey: &str| -> R {
        let mut easy = n.to_vec();
        easy.extend_from_slice(ct);
        c.steps(2);
        for (how, r) in &[("decrypt", guard(|| f.dec(key, n, a, ct))), ("decrypt_easy", guard(|| f.dec_easy(key, a, &easy)))] {
            match r {
                Ok(None) => {}
                Err(p) => violation(format!("{}:panic", vkey), format!("{} interface {} {}: {}: panic: {}", s.name, i, how, what, p))?,
                Ok(Some(x)) => { c.soft(format!("{}:accepted:{}", vkey, s.name), format!("{} interface {} {}: {}: decrypts to {}", s.name, i, how, what, hexs(x))); }
            }
        }
        Ok(())
    };
    let flip = |v: &[u8], b: usize| { let mut v = v.to_vec(); v[b / 8] ^= 1 << (b % 8); v };
    match kind {
        0 => for b in 0..ct.len() * 8 { both(c, &key, &n, &a, &flip(&ct, b), format!("bit {} of the ciphertext flipped", b), "ciphertext")? },
        1 => for b in 0..n.len() * 8 { both(c, &key, &flip(&n, b), &a, &ct, format!("bit {} of the nonce flipped", b), "nonce")? },
        2 => for b in 0..a.len() * 8 { both(c, &key, &n, &flip(&a, b), &ct, format!("bit {} of the associated data flipped", b), "aad")? },
        3 if k < 2 => for b in 0..key.len() * 8 {
            // encrypt-then-MAC: the second half of the key authenticates, the first only deciphers
            if b >= key.len() * 4 {
                both(c, &flip(&key, b), &n, &a, &ct, format!("bit {} of the key flipped", b), "key")?
            } else {
                c.step();
                let r = guard(|| f.dec(&flip(&key, b), &n, &a, &ct));
                c.ensure(r.is_ok() && r != Ok(Some(m.clone())), "key:same", || format!("{} interface {}: bit {} of the key flipped: {:?}", s.name, i, b, r))?;
            }
        },
        3 => for b in 0..key.len() * 8 { both(c, &flip(&key, b), &n, &a, &ct, format!("bit {} of the key flipped", b), "key")? },
        4 => for l in 0..ct.len() {
            both(c, &key, &n, &a, &ct[..l], format!("the first {} bytes of the ciphertext", l), "truncated")?;
            both(c, &key, &n, &a, &ct[ct.len() - l..], format!("the last {} bytes of the ciphertext", l), "truncated")?;
        },
        5 => for l in &[1usize, 15, 16, 17, 32] {
            let mut x = ct.clone(); x.extend_from_slice(&bytes(*l, 9));
            both(c, &key, &n, &a, &x, format!("{} bytes appended", l), "extended")?;
            let mut x = bytes(*l, 9); x.extend_from_slice(&ct);
            both(c, &key, &n, &a, &x, format!("{} bytes put before", l), "extended")?;
            let mut x = a.clone(); x.extend_from_slice(&bytes(*l, 9));
            both(c, &key, &n, &x, &ct, format!("{} bytes appended to the associated data", l), "aad")?;
            let mut x = a.clone(); x.extend_from_slice(&vec![0; *l]);
            both(c, &key, &n, &x, &ct, format!("{} zero bytes appended to the associated data", l), "aad")?;
        },
        6 => {
            for l in 0..a.len() { both(c, &key, &n, &a[..l], &ct, format!("associated data cut to {} bytes", l), "aad")? }
            // decrypt_easy of every prefix of what encrypt_easy gives
            for l in 0..easy.len() {
                c.step();
                match guard(|| f.dec_easy(&key, &a, &easy[..l])) {
                    Ok(None) => {}
                    o => return violation("easy-truncated", format!("{} interface {}: the first {} bytes: {:?}", s.name, i, l, o)),
                }
            }
        }
        _ => {
            // the same bytes, divided differently into associated data, nonce and ciphertext
            let mut all = a.clone(); all.extend_from_slice(&n); all.extend_from_slice(&ct);
            for l in 0..all.len().saturating_sub(n.len()) {
                if l != a.len() {
                    both(c, &key, &all[l..l + n.len()], &all[..l], &all[l + n.len()..], format!("associated data of {} bytes divided off after {}", la, l), "shift")?;
                }
            }
        }
    }
    c.outcome("refused");
    Ok(())
}
/// Keys and nonces of the wrong length are errors, not panics.
fn sizes(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 6);
    let i = c.choose("interface", w.ifs[k].len());
    let what = c.choose("of", 2);
    let l = c.choose("length", 70);
    let s = &w.specs[k];
    let f = &w.ifs[k][i];
    c.state(&(k, i, what, l));
    let key = bytes(if what == 0 { l } else { s.key }, 1);
    let n = bytes(if what == 1 { l } else { s.nonce }, 2);
    let valid = key.len() == s.key && n.len() == s.nonce;
    if k < 5 {
    let t = ty(k);
    c.ensure(t.is_valid_keysize(key.len()) == (key.len() == s.key), "keysize", || format!("{} key of {}", s.name, key.len()))?;
    c.ensure(t.is_valid_noncesize(n.len()) == (n.len() == s.nonce), "noncesize", || format!("{} nonce of {}", s.name, n.len()))?;
    }
    let ct = bytes(64, 5);
    for (how, r) in vec![
        ("encrypt", guard(|| f.enc(&key, &n, &[], b"message"))),
        ("decrypt", guard(|| f.dec(&key, &n, &[], &ct).or(if valid { Some(vec![]) } else { None }))),
        ("encrypt_easy", guard(|| if what == 0 { f.enc_easy(&key, &[], b"message") } else if valid { Some(vec![]) } else { None })),
    ] {
        match r {
            Err(p) => return violation(if what == 0 { "sizes:key:panic" } else { "sizes:nonce:panic" }, format!("{} interface {} {} with a {} of {} bytes: panic: {}", s.name, i, how, if what == 0 { "key" } else { "nonce" }, l, p)),
            Ok(x) => c.ensure(x.is_some() == valid, "sizes:accepted", || format!("{} interface {} {} with key {} nonce {}", s.name, i, how, key.len(), n.len()))?,
        }
    }
    c.outcome(if valid { "valid" } else { "refused" });
    Ok(())
}
/// Long messages and long associated data: every length to 1100, around the powers of two, and
/// alterations all along them.
fn long(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 6);
    let i = c.choose("interface", w.ifs[k].len());
    let s = &w.specs[k];
    let f = &w.ifs[k][i];
    let part = c.choose("part", 4);
    let near = |max: usize| { let mut v = vec![]; let mut p = 1024; while p <= max { v.extend(vec![p - 33, p - 1, p, p + 1, p + 17]); p *= 2 } v };
    let (key, n) = (bytes(s.key, 1), bytes(s.nonce, 2));
    let sizes: Vec<(usize, usize)> = match part {
        0 => (0..1100).map(|l| (l, 0)).collect(),
        1 => (0..1100).map(|l| (3, l)).collect(),
        2 => near(1 << 20).into_iter().map(|l| (l, 20)).collect(),
        _ => near(1 << 20).into_iter().map(|l| (20, l)).collect(),
    };
    c.state(&(k, i, part));
    for (lm, la) in sizes {
        let (a, m) = (bytes(la, 3), bytes(lm, 4));
        let what = || format!("{} interface {}: {} bytes with {} bytes of associated data", s.name, i, lm, la);
        let want = (s.oracle)(&key, &n, &a, &m);
        c.steps(4);
        if guard(|| f.enc(&key, &n, &a, &m)) != Ok(Some(want.clone())) { return violation("encrypt", format!("{}: not the standard's ciphertext", what())) }
        if guard(|| f.dec(&key, &n, &a, &want)) != Ok(Some(m.clone())) { return violation(format!("decrypt:{}", s.name), format!("{}: does not decrypt", what())) }
        let e = match guard(|| f.enc_easy(&key, &a, &m)) { Ok(Some(e)) => e, _ => return violation("encrypt_easy", what()) };
        if guard(|| f.dec_easy(&key, &a, &e)) != Ok(Some(m.clone())) { return violation(format!("decrypt_easy:{}", s.name), format!("{}: does not decrypt", what())) }
        // alterations along the ciphertext and the associated data
        if lm + la > 70_000 { continue }
        let spots = |l: usize| { let mut v: Vec<usize> = vec![0, 1, 15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536]; v.extend((1..40).map(|b| l.wrapping_sub(b))); v.retain(|x| *x < l); v };
        if part < 2 && (lm + la) % 50 != 0 { continue }
        for b in spots(want.len()) {
            let mut x = want.clone(); x[b] ^= 0x10; c.step();
            if guard(|| f.dec(&key, &n, &a, &x)) != Ok(None) { return violation(format!("ciphertext:accepted:{}", s.name), format!("{}: byte {} of the ciphertext altered", what(), b)) }
            let mut x = want.clone(); x.remove(b); c.step();
            if guard(|| f.dec(&key, &n, &a, &x)) != Ok(None) { return violation(format!("ciphertext:accepted:{}", s.name), format!("{}: byte {} of the ciphertext left out", what(), b)) }
        }
        for b in spots(a.len()) {
            let mut x = a.clone(); x[b] ^= 0x10; c.step();
            if guard(|| f.dec(&key, &n, &x, &want)) != Ok(None) { return violation(format!("aad:accepted:{}", s.name), format!("{}: byte {} of the associated data altered", what(), b)) }
            c.step();
            if guard(|| f.dec(&key, &n, &a[..b], &want)) != Ok(None) { return violation(format!("aad:accepted:{}", s.name), format!("{}: the first {} bytes of the associated data", what(), b)) }
        }
    }
    c.outcome("ok");
    Ok(())
}
/// Streams: chunked or failing readers and writers; nothing is written when the input is refused.
fn streams(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 6);
    let dec = c.flag("decrypt");
    let fault = c.choose("fault", 5); // none, first read, second read, write, altered input
    let chunk = c.pick("chunk", &[1usize, 7, 4096]);
    // long messages in large pieces, without a failure on the way
    let lm = if chunk == 4096 && (fault == 0 || fault == 4) {
        c.pick("message", &[0usize, 1, 33, 100, 5000, 70_001, 4095, 4096, 4097, 65_536, (1 << 20) + 1, (1 << 24) + 1])
    } else {
        c.pick("message", &[0usize, 1, 33, 100, 5000, 70_001])
    };
    c.state(&(k, dec, fault, chunk, lm));
    let s = &w.specs[k];
    let (key, n, a, m) = (bytes(s.key, 1), bytes(s.nonce, 2), bytes(5, 3), bytes(lm, 4));
    let mut input = m.clone();
    if dec {
        input = n.clone();
        input.extend_from_slice(&(s.oracle)(&key, &n, &a, &m));
        if fault == 4 {
            *input.last_mut().unwrap() ^= 1;
        }
    }
    let j = [j1, j2, j3, j4, j5, j6][k];
    let r = guard(|| j(&key, fault, chunk, dec, &a, &input));
    let (ok, out) = match r {
        Ok(x) => x,
        Err(p) => return violation("streams:panic", p),
    };
    c.step();
    let bad = match fault { 0 => false, 1 => true, 2 => !input.is_empty(), 3 => !(dec && lm == 0), _ => dec };
    c.ensure(ok != bad, "streams:verdict", || format!("{} decrypt {} fault {} chunk {} length {}: ok {}", s.name, dec, fault, chunk, lm, ok))?;
    // (an empty input is at its end after one read)
    if bad && fault != 3 {
        c.ensure(out.is_empty(), "streams:released", || format!("{} bytes written though the input was refused", out.len()))?;
    }
    if !bad && dec {
        c.ensure(out == m || (fault == 3 && lm == 0), "streams:plaintext", || "not the message".into())?;
    }
    if !bad && !dec && fault != 3 {
        let back = w.ifs[k][0].dec_easy(&key, &a, &out);
        c.ensure(back == Some(m), "streams:ciphertext", || "not its ciphertext".into())?;
    }
    c.outcome(if ok { "done" } else { "error" });
    Ok(())
}
/// Names, JSON and key generation.
fn names(w: &World, c: &mut Ctx) -> R {
    let k = c.choose("cipher", 5);
    c.state(&k);
    let (t, s) = (ty(k), &w.specs[k]);
    c.ensure(t.to_string() == s.name, "name", || format!("{} is called {}", s.name, t))?;
    c.ensure(EncryptorType::from_str(s.name) == Ok(t), "from_str", || s.name.into())?;
    let j = serde_json::to_value(&t).unwrap();
    c.ensure(serde_json::from_value::<EncryptorType>(j).ok() == Some(t), "json", || s.name.into())?;
    let e = t.gen_encryptor(bytes(s.key, 1));
    c.ensure(e.keysize() == s.key && e.noncesize() == s.nonce, "sizes", || s.name.into())?;
    for bad in &["", "aes", "aes-128-GCM", "AES-128-GCM", "aes-128-gcm ", "xchacha20", "chacha20poly1305"] {
        c.ensure(EncryptorType::from_str(bad).is_err(), "from_str", || format!("{:?} accepted", bad))?;
    }
    macro_rules! json { ($t:ident) => {{
        let x = $t::default();
        let y = $t::default();
        c.ensure(x != y, "keys", || "two default keys are equal".into())?;
        let v = serde_json::to_value(&x).unwrap();
        let z: $t = serde_json::from_value(v.clone()).unwrap();
        c.ensure(z == x && serde_json::to_value(&z).unwrap() == v, "key-json", || format!("{}", v))?;
        let h = v.as_str().unwrap().to_string();
        for bad in vec![h[1..].to_string(), h[2..].to_string(), format!("{}00", h), h.replace(&h[..1], "x"), String::new()] {
            let r = guard(|| serde_json::from_value::<$t>(Value::String(bad.clone())).is_ok());
            c.step();
            if r != Ok(false) {
                return violation("key-json:malformed", format!("{}: {:?} gives {:?}", s.name, bad, r));
            }
        }
    }} }
    match k { 0 => json!(Aes128CbcHmac256), 1 => json!(Aes256CbcHmac512), 2 => json!(Aes128Gcm), 3 => json!(Aes256Gcm), _ => json!(XChaCha20Poly1305) }
    c.outcome("ok");
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    let w = world();
    let (w1, w2, w3, w4, w5, w6) = (w.clone(), w.clone(), w.clone(), w.clone(), w.clone(), w);
    Check {
        rule: "An execution is one cipher through one interface with one length of message and associated data and one alteration; all bits and lengths are run through within it. A state is one combination of choices, a transition one call judged.".into(),
        assumptions: vec!["the oracle for the ciphers is OpenSSL (HChaCha20 written out); one fixed key and nonce".into()],
        scenarios: vec![
            Scenario::new("roundtrip", "6 ciphers x 2 or 3 interfaces x 7 lengths of associated data x all message lengths 0..66 (200) and 8 longer", move |c| roundtrip(&w1, c)),
            Scenario::new("tamper", "6 ciphers x 2 or 3 interfaces x 6 messages x 4 associated data x every bit, prefix, suffix and division", move |c| tamper(&w2, c)),
            Scenario::new("sizes", "6 ciphers x 2 or 3 interfaces x keys and nonces of 0..69 bytes", move |c| sizes(&w3, c)),
            Scenario::new("streams", "6 ciphers x direction x 4 faults x 3 chunk sizes x 6 or 12 messages (to 2^24 + 1 bytes)", move |c| streams(&w4, c)),
            Scenario::new("long", "6 ciphers x 2 or 3 interfaces x messages or associated data of 0..1099 bytes and around every power of two to 2^20; alterations at 60 places", move |c| long(&w6, c)),
            Scenario::new("names", "5 ciphers", move |c| names(&w5, c)),
        ],
    }
}
