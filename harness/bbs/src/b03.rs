//! B03: every BBS+ type as bytes: what is written is read back, and no bytes make a reader panic.
use crate::util::*;
use bbs::prelude::*;
use mc::*;
use std::collections::BTreeMap;
use std::convert::TryFrom;

/// (name, written forms, reader giving the forms of what it read). Reader 0/1: compressed/uncompressed, 2: TryFrom, 3: JSON, 4: CBOR.
pub struct Kind {
    name: &'static str,
    forms: [Vec<u8>; 2],
    json: String,
    cbor: Vec<u8>,
    read: Box<dyn Fn(usize, &[u8]) -> Option<[Vec<u8>; 2]> + Send + Sync>,
}
macro_rules! serde_read { ($t:ty, $h:expr, $b:expr, $f:expr) => { match $h {
    2 => <$t>::try_from($b).ok().map($f),
    3 => std::str::from_utf8($b).ok().and_then(|s| serde_json::from_str::<$t>(s).ok()).map($f),
    _ => serde_cbor::from_slice::<$t>($b).ok().map($f),
} } }
macro_rules! var { ($v:expr, $x:expr, $t:ident) => { {
    let x: $t = $x;
    let forms = |x: $t| [x.to_bytes_compressed_form(), x.to_bytes_uncompressed_form()];
    $v.push(Kind { name: stringify!($t), json: serde_json::to_string(&x).unwrap(), cbor: serde_cbor::to_vec(&x).unwrap(), forms: forms(x), read: Box::new(move |h, b| match h {
        0 => $t::from_bytes_compressed_form(b).ok().map(forms),
        1 => $t::from_bytes_uncompressed_form(b).ok().map(forms),
        h => serde_read!($t, h, b, forms),
    }) });
} } }
macro_rules! fix { ($v:expr, $x:expr, $t:ident) => { {
    let x: $t = $x;
    let forms = |x: $t| [x.to_bytes_compressed_form().to_vec(), x.to_bytes_uncompressed_form().to_vec()];
    $v.push(Kind { name: stringify!($t), json: serde_json::to_string(&x).unwrap(), cbor: serde_cbor::to_vec(&x).unwrap(), forms: forms(x), read: Box::new(move |h, b| match h {
        0 | 1 | 2 => $t::try_from(b).ok().map(forms),
        h => serde_read!($t, h, b, forms),
    }) });
} } }
pub fn kinds(variant: usize) -> Vec<Kind> {
    let mut v = vec![];
    let n = [1, 2, 3, 8, 9][variant];
    let (pk, sk) = keys(0, n);
    let ms: Vec<M> = (0..n).map(msg).collect();
    let s = Issuer::sign(&ms, &sk, &pk).unwrap();
    let shown: Vec<usize> = match variant { 0 => vec![], 1 => vec![0], 2 => vec![0, 2], 3 => (0..8).collect(), _ => vec![0, 7, 8] };
    let req = Verifier::new_proof_request(&shown, &pk).unwrap();
    let pm: Vec<ProofMessage> = ms.iter().enumerate().map(|(i, m)| if shown.contains(&i) { ProofMessage::Revealed(*m) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*m)) }).collect();
    let nonce = ProofNonce::hash(b"n");
    let pok = Prover::commit_signature_pok(&req, &pm, &s).unwrap();
    let ch = Prover::create_challenge_hash(&[pok.clone()], None, &nonce).unwrap();
    let p = Prover::generate_signature_pok(pok, &ch).unwrap();
    let hidden: BTreeMap<usize, M> = shown.iter().map(|i| (*i, ms[*i])).collect();
    let (ctx, blinding) = Prover::new_blind_signature_context(&pk, &hidden, &nonce).unwrap();
    let known: BTreeMap<usize, M> = (0..n).filter(|i| !shown.contains(i)).map(|i| (i, ms[i])).collect();
    let b = Issuer::blind_sign(&ctx, &known, &sk, &pk, &nonce).unwrap();
    var!(v, pk.clone(), PublicKey);
    var!(v, req, ProofRequest);
    var!(v, ctx.proof_of_hidden_messages.clone(), ProofG1);
    var!(v, p.proof.clone(), PoKOfSignatureProof);
    var!(v, p, SignatureProof);
    fix!(v, ctx.commitment, Commitment);
    var!(v, ctx, BlindSignatureContext);
    fix!(v, s, Signature);
    fix!(v, b, BlindSignature);
    fix!(v, sk.clone(), SecretKey);
    fix!(v, ms[n - 1], SignatureMessage);
    fix!(v, nonce, ProofNonce);
    fix!(v, ch, ProofChallenge);
    fix!(v, blinding, SignatureBlinding);
    fix!(v, pk.h0, GeneratorG1);
    fix!(v, pk.w, GeneratorG2);
    fix!(v, Issuer::new_short_keys(Some(KeyGenOption::FromSecretKey(sk.clone()))).unwrap().0, DeterministicPublicKey);
    v
}
const KINDS: usize = 17;
static ALL: Memo<usize, Vec<Kind>> = Memo::new();
fn kind(variant: usize, i: usize) -> Ref { Ref(ALL.of(&variant, || kinds(variant)), i) }
struct Ref(std::sync::Arc<Vec<Kind>>, usize);
impl std::ops::Deref for Ref {
    type Target = Kind;
    fn deref(&self) -> &Kind { &self.0[self.1] }
}
/// Lists within these types have lengths of their own, and what lies after them is ignored.
fn nested(k: &Kind) -> bool { ["ProofRequest", "PoKOfSignatureProof", "SignatureProof"].contains(&k.name) }
fn read(c: &mut Ctx, k: &Kind, how: usize, b: &[u8], what: impl Fn() -> String) -> V<Option<[Vec<u8>; 2]>> {
    c.step();
    match guard(|| (k.read)(how, b)) {
        Ok(x) => Ok(x),
        Err(p) => violation(format!("{}:panic", k.name), format!("{} {} ({}): panic: {}", k.name, what(), ["compressed", "uncompressed", "TryFrom", "JSON", "CBOR"][how], p)),
    }
}
fn trip(c: &mut Ctx) -> R {
    let v = c.choose("size", 5);
    let i = c.choose("type", KINDS);
    c.state(&(v, i));
    let k = kind(v, i);
    c.note(k.name);
    for (h, b) in [(0, &k.forms[0]), (1, &k.forms[1]), (2, &k.forms[0]), (3, &k.json.clone().into_bytes()), (4, &k.cbor)].iter() {
        let r = read(c, &k, *h, b, || "as written".into())?;
        c.ensure(r.as_ref() == Some(&k.forms), &format!("{}:round-trip", k.name), || format!("{} as written in form {} is {}", k.name, h, if r.is_some() { "read as something else" } else { "refused" }))?;
    }
    c.outcome("ok");
    Ok(())
}
/// What is read from altered bytes is written as a beginning of these bytes; nothing panics.
fn judge(c: &mut Ctx, k: &Kind, how: usize, b: &[u8], what: impl Fn() -> String) -> R {
    let r = read(c, k, how, b, &what)?;
    let form = if how == 1 { 1 } else { 0 };
    if let Some(f) = r {
        let short = b.len() < f[form].len() && !(how < 3 && b.len() >= f[0].len().min(f[1].len()));
        c.ensure(!short, &format!("{}:short", k.name), || format!("{} {}: {} bytes are read as {}", k.name, what(), b.len(), f[form].len()))?;
        let same = [0, 1].iter().any(|i| b.len() >= f[*i].len() && b[..f[*i].len()] == f[*i][..]);
        if !same { c.outcome("another encoding") } else { c.outcome("read") }
        if !same && nested(k) {
            let again = read(c, k, form, &f[form], || "as written again".into())?;
            c.ensure(again.as_ref() == Some(&f) && f[form].len() <= b.len(), &format!("{}:other", k.name), || format!("{} {}: read, but not read again as the same", k.name, what()))?;
        }
        c.ensure(same || nested(k), &format!("{}:other", k.name), || format!("{} {}: read, but written otherwise", k.name, what()))?;
    }
    Ok(())
}
fn alter(c: &mut Ctx) -> R {
    let v = c.choose("size", c.q(3, 5));
    let i = c.choose("type", KINDS);
    let form = c.choose("form", 2);
    let how = c.choose("alteration", 3);
    c.state(&(v, i, form, how));
    let k = kind(v, i);
    c.note(k.name);
    let b = k.forms[form].clone();
    match how {
        0 => for l in 0..b.len() { judge(c, &k, form, &b[..l], || format!("cut to {} of {} bytes", l, b.len()))?; if form == 0 { judge(c, &k, 2, &b[..l], || format!("cut to {}", l))? } },
        1 => for p in 0..b.len() {
            let bits: Vec<u8> = if c.thorough() { (0..8).map(|x| 1 << x).collect() } else { vec![1 << (p % 8), 0x80] };
            for bit in bits { let mut x = b.clone(); x[p] ^= bit; judge(c, &k, form, &x, || format!("byte {} xor {}", p, bit))? }
        },
        _ => for p in 0..b.len().saturating_sub(3) {
            // every four bytes as a length
            let old = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
            let lens: Vec<u32> = if old < 1 << 16 || c.thorough() { vec![0, 1, old.wrapping_sub(1), old + 1, 2, 7, 8, 31, 32, 48, 96, 1 << 16, 1 << 27, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffc, 0xffff_ff9c] } else { vec![0, 0xffff_ffff] };
            for l in lens { let mut x = b.clone(); x[p..p + 4].copy_from_slice(&l.to_be_bytes()); judge(c, &k, form, &x, || format!("{} at byte {}", l, p))? }
        },
    }
    c.outcome("ok");
    Ok(())
}
/// Bytes made up of lengths and zero or neutral elements.
fn made(c: &mut Ctx) -> R {
    let i = c.choose("type", KINDS);
    let form = c.choose("form", 2);
    let l = c.choose("length", 420);
    c.state(&(i, form, l));
    let k = kind(0, i);
    for fill in &[0u8, 0xff, 0xc0, 0x40, 1] {
        let mut x = vec![*fill; l];
        judge(c, &k, form, &x, || format!("{} bytes {}", l, fill))?;
        if l > 0 && *fill == 0 { x[0] = if form == 0 { 0xc0 } else { 0x40 }; judge(c, &k, form, &x, || format!("{} bytes, neutral", l))?; judge(c, &k, 2, &x, || format!("{} bytes, neutral", l))? }
    }
    c.outcome("ok");
    Ok(())
}
/// JSON that is no list of bytes, or of other lengths.
fn json(c: &mut Ctx) -> R {
    let i = c.choose("type", KINDS);
    let how = c.choose("alteration", 9);
    c.state(&(i, how));
    let k = kind(1, i);
    let v: Value = serde_json::from_str(&k.json).unwrap();
    let mut texts: Vec<String> = vec![];
    match how {
        0 => texts.extend(["null", "true", "0", "\"\"", "[]", "{}", "[[]]", "[256]", "[-1]", "[0.5]", "[\"a\"]", "\"abc\""].iter().map(|s| s.to_string())),
        1 => for l in 0..v.as_array().map(|a| a.len()).unwrap_or(0) { texts.push(Value::Array(v.as_array().unwrap()[..l].to_vec()).to_string()) },
        h => for l in 0..v.as_array().map(|a| a.len()).unwrap_or(0) {
            let mut a = v.as_array().unwrap().clone();
            a[l] = [json!(256), json!(-1), json!("1"), json!(null), json!([]), json!(0), json!(255)][h - 2].clone();
            texts.push(Value::Array(a).to_string());
        },
    }
    for t in texts {
        let r = read(c, &k, 3, t.as_bytes(), || short(&t))?;
        if let Some(f) = r {
            let bytes: Option<Vec<u8>> = serde_json::from_str(&t).ok();
            c.ensure(nested(&k) || bytes.map_or(false, |b| b.starts_with(&f[0])), &format!("{}:json", k.name), || format!("{}: {} is read", k.name, short(&t)))?;
        }
    }
    c.outcome("ok");
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one value of one type, written and read back in every form, or one kind of alteration of its bytes. A state is one combination of choices, a transition one reading.".into(),
        assumptions: vec!["bytes after the end of a value may be ignored; the conversions that cannot fail by their type (From of an array) are outside the property".into()],
        scenarios: vec![
            Scenario::new("trip", "5 sizes x 17 types x 5 forms", trip),
            Scenario::new("alter", "3 (5) sizes x 17 types x 2 forms: every length, every byte (2 bits, thorough: all), every position as a length of 18 values", alter),
            Scenario::new("made", "17 types x 2 forms x 0..419 bytes of 6 kinds", made),
            Scenario::new("json", "17 types x 9 alterations of JSON", json),
        ],
    }
}
