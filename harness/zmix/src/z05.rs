//! Z05: attribute tokens of a delegation chain.
use crate::util::*;
use crate::z04::{a1, a2, chain, params, Chain};
use amcl_wrapper::group_elem_g1::G1;
use amcl_wrapper::group_elem_g2::G2;
use mc::*;
use std::collections::HashSet;
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

type P = (Groth1SetupParams, Groth2SetupParams);
type Rev = Vec<HashSet<usize>>;
fn rev(r: &[Vec<usize>]) -> Rev { r.iter().map(|x| x.iter().cloned().collect()).collect() }
pub fn challenge(at: &AttributeTokenComm, ipk: &Groth1Verkey, nonce: &[u8]) -> F { AttributeToken::gen_challenge(at, ipk, nonce.to_vec()) }
struct Verifier<'a> { l: usize, ipk: &'a Groth1Verkey, p: &'a P, nonce: &'a [u8] }
impl<'a> Verifier<'a> {
    /// The two ways to reconstruct a commitment: what each gives.
    fn both(&self, c: &mut Ctx, key: &str, what: &dyn Fn() -> String, comm: &AttributeTokenComm, resp: &AttributeTokenResp, ch: &F, r: &Rev) -> V<[Option<AttributeTokenComm>; 2]> {
        let a = verdict(c, key, || format!("{} (plain)", what()), || AttributeToken::reconstruct_commitment(self.l, comm, resp, ch, r.clone(), self.ipk, &self.p.0, &self.p.1).map_err(|e| e.to_string()))?;
        let b = verdict(c, key, || format!("{} (precomputed)", what()), || {
            let pre = PrecompForCommitmentReconstitution::new(self.ipk, &self.p.0, &self.p.1);
            AttributeToken::reconstruct_commitment_with_precomputed_vals(self.l, comm, resp, ch, r.clone(), &self.p.0, &self.p.1, &pre).map_err(|e| e.to_string())
        })?;
        Ok([a, b])
    }
    fn judge(&self, c: &mut Ctx, want: bool, key: &str, what: &dyn Fn() -> String, comm: &AttributeTokenComm, resp: &AttributeTokenResp, ch: &F, r: &Rev) -> R {
        for (w, x) in ["plain", "precomputed"].iter().zip(self.both(c, key, what, comm, resp, ch, r)?.iter()) {
            let ok = x.as_ref().map_or(false, |x| challenge(x, self.ipk, self.nonce) == *ch);
            c.ensure(ok == want, key, || format!("{} ({}): {}", what(), w, if ok { "accepted" } else { "refused" }))?;
        }
        Ok(())
    }
}
pub fn respond(x: &Chain, t: &AttributeToken, comm: &AttributeTokenComm, ch: &F) -> Result<AttributeTokenResp, String> {
    t.response(comm, x.sk.last().unwrap(), ch, x.even.iter().skip(1).collect(), x.odd.iter().collect()).map_err(|e| e.to_string())
}
fn shape(c: &mut Ctx, len: usize) -> Vec<usize> {
    match c.choose("attributes", 4) { 0 => vec![2; len], 1 => vec![0; len], 2 => (0..len).map(|i| i % 3).collect(), _ => (0..len).map(|i| 2 - i % 3).collect() }
}
fn ver<'a>(x: &'a Chain, p: &'a P, l: usize, nonce: &'a [u8]) -> Verifier<'a> { Verifier { l, ipk: &x.even[0], p, nonce } }
const MAX: usize = 3;

fn honest(c: &mut Ctx) -> R {
    let len = 1 + c.choose("links", c.q(4, 5));
    let shape = shape(c, len);
    let full = len < c.q(4, 5);
    let r: Vec<Vec<usize>> = if full { shape.iter().map(|n| c.subset("revealed", *n)).collect() } else { let s = c.subset("revealed everywhere", 2); shape.iter().map(|n| s.iter().cloned().filter(|i| i < n).collect()).collect() };
    let way = if len < 3 { c.choose("way", 3) } else { 2 };
    c.state(&(&shape, &r, way));
    let p = params(0, MAX);
    let x = chain(0, MAX, &shape);
    let v = ver(&x, &p, len, b"nonce");
    let r = rev(&r);
    let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
    let comm = made(c, "commit", || "commitment".into(), || match way {
        0 => t.commitment(r.clone()),
        1 => t.commitment_with_precomputation_on_setup_params(r.clone(), &PrecompOnSetupParams::new(&p.0, &p.1)),
        _ => t.commitment_with_precomputation(r.clone(), &PrecompOnSetupParams::new(&p.0, &p.1), &PrecompOnCredChain::new(&x.chain, &p.0, &p.1).unwrap()),
    }.map_err(|e| e.to_string()))?;
    for i in 0..len {
        let (got, want): (Vec<(usize, Vec<u8>)>, Vec<(usize, Vec<u8>)>) = if i % 2 == 0 {
            (comm.odd_level_revealed_attributes[i / 2].iter().map(|(k, v)| (*k, v.to_bytes())).collect(), r[i].iter().map(|j| (*j, x.chain.odd_links[i / 2].attributes[*j].to_bytes())).collect())
        } else {
            (comm.even_level_revealed_attributes[i / 2].iter().map(|(k, v)| (*k, v.to_bytes())).collect(), r[i].iter().map(|j| (*j, x.chain.even_links[i / 2].attributes[*j].to_bytes())).collect())
        };
        let (mut got, mut want) = (got, want);
        got.sort();
        want.sort();
        c.same(got, want, "revealed", &format!("revealed at level {}", i + 1))?;
    }
    let ch = challenge(&comm, v.ipk, v.nonce);
    let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &comm, &ch))?;
    for b in v.both(c, "honest", &|| "honest token".into(), &comm, &resp, &ch, &r)?.iter() { c.ensure(b.as_ref() == Some(&comm), "honest", || format!("attributes {:?} revealed {:?}: another commitment", shape, r))?; }
    v.judge(c, true, "honest", &|| format!("attributes {:?} revealed {:?}", shape, r), &comm, &resp, &ch, &r)?;
    // what arrives at the verifier
    for (k, s) in leaves_of(&comm, &resp) {
        c.ensure(s.trim_matches('"').split_whitespace().all(|h| h.len() <= 96), &format!("json:size:{}", k), || format!("{} is written as {}", k, s))?;
    }
    for _ in 0..3 {
        let comm2: AttributeTokenComm = serde_json::from_str(&serde_json::to_string(&comm).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
        let resp2: AttributeTokenResp = serde_json::from_str(&serde_json::to_string(&resp).unwrap()).map_err(|e| Violation { key: "json".into(), msg: e.to_string() })?;
        c.ensure(comm2 == comm && resp2 == resp, "json", || "another token".into())?;
        c.ensure(challenge(&comm2, v.ipk, v.nonce) == ch, "json:challenge", || format!("attributes {:?} revealed {:?}: the challenge changed in transit", shape, r))?;
        c.steps(1);
    }
    // a second token has nothing in common with the first
    let mut t2 = AttributeToken::new(&x.chain, &p.0, &p.1);
    let comm2 = made(c, "commit", || "second commitment".into(), || t2.commitment(r.clone()).map_err(|e| e.to_string()))?;
    let resp2 = made(c, "respond", || "second response".into(), || respond(&x, &t2, &comm2, &ch))?;
    let (a, b) = (leaves_of(&comm, &resp), leaves_of(&comm2, &resp2));
    for (k, s) in &a {
        if k.contains("revealed_attributes") { continue }
        c.ensure(!b.iter().any(|(_, t)| t == s), "linkable", || format!("{} occurs in both of two tokens", k))?;
    }
    for (k, s) in &a { for (m, t) in &a { if k != m && !k.contains("revealed") && !m.contains("revealed") { c.ensure(s != t, "linkable", || format!("{} and {} are equal", k, m))?; } } }
    c.outcome(format!("{} links", len));
    Ok(())
}
fn leaves_of(comm: &AttributeTokenComm, resp: &AttributeTokenResp) -> Vec<(String, String)> {
    let v = json!({"comm": serde_json::to_value(comm).unwrap(), "resp": serde_json::to_value(resp).unwrap()});
    jsonmut::leaves(&v).into_iter().map(|p| { let s = jsonmut::get(&v, &p).to_string(); (p, s) }).collect()
}
struct Token { comm: AttributeTokenComm, ch: F, resp: AttributeTokenResp }
fn token(c: &mut Ctx, x: &Chain, t: &mut AttributeToken, r: &Rev, nonce: &[u8]) -> V<Token> {
    let comm = made(c, "commit", || "commitment".into(), || t.commitment(r.clone()).map_err(|e| e.to_string()))?;
    let ch = challenge(&comm, &x.even[0], nonce);
    let resp = made(c, "respond", || "response".into(), || respond(x, t, &comm, &ch))?;
    Ok(Token { comm, ch, resp })
}
fn small(c: &mut Ctx, len: usize) -> (Vec<usize>, Rev) {
    let shape: Vec<usize> = match c.choose("attributes", 2) { 0 => vec![2; len], _ => (0..len).map(|i| (i + 1) % 3).collect() };
    let r = match c.choose("revealed", 3) { 0 => shape.iter().map(|_| vec![]).collect::<Vec<_>>(), 1 => shape.iter().map(|n| (0..*n).collect()).collect(), _ => shape.iter().enumerate().map(|(i, n)| if *n > 0 { vec![(i + 1) % n] } else { vec![] }).collect() };
    (shape, rev(&r))
}
fn altered(c: &mut Ctx) -> R {
    let len = 1 + c.choose("links", c.q(3, 4));
    let (shape, r) = small(c, len);
    c.state(&(&shape, r.iter().map(|x| x.len()).collect::<Vec<_>>()));
    let p = params(0, MAX);
    let (x, z) = (chain(0, MAX, &shape), chain(1, MAX, &shape));
    let v = ver(&x, &p, len, b"nonce");
    let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
    let mut t2 = AttributeToken::new(&z.chain, &p.0, &p.1);
    let k = token(c, &x, &mut t, &r, b"nonce")?;
    let d = token(c, &z, &mut t2, &r, b"nonce")?;
    v.judge(c, true, "honest", &|| "honest token".into(), &k.comm, &k.resp, &k.ch, &r)?;
    // circumstances
    for (w, v) in vec![("issuer", Verifier { ipk: &z.even[0], ..ver(&x, &p, len, b"nonce") }), ("nonce", ver(&x, &p, len, b"Nonce")), ("no nonce", ver(&x, &p, len, b""))] {
        v.judge(c, false, "other", &|| format!("another {}", w), &k.comm, &k.resp, &k.ch, &r)?;
    }
    // the message signed by a token, of any length, counts with every byte
    c.ensure(challenge(&k.comm, &z.even[0], b"nonce") != k.ch, "binding", || "the root key is not covered by the challenge".into())?;
    for n in if len == 1 { vec![1usize, 16, 32, 33, 48, 64, 65, 128, 255, 256, 257, 1024, 4097, 70000] } else { vec![65] } {
        let m: Vec<u8> = (0..n).map(|i| (i * i + 3 * i) as u8).collect();
        let want = challenge(&k.comm, &x.even[0], &m);
        for at in (0..n).filter(|a| n < 300 || a + 2 > n || (a & (a + 1)) == 0) {
            let mut y = m.clone();
            y[at] ^= 4;
            c.steps(2);
            c.ensure(challenge(&k.comm, &x.even[0], &y) != want && challenge(&k.comm, &x.even[0], &m[..at]) != want, "binding", || format!("byte {} of a message of {} is not covered by the challenge", at, n))?;
        }
    }
    let q = params(1, MAX);
    ver(&x, &q, len, b"nonce").judge(c, false, "other", &|| "other parameters".into(), &k.comm, &k.resp, &k.ch, &r)?;
    for (w, ch) in vec![("zero", f(0)), ("one", f(1)), ("that of another token", d.ch.clone())] {
        v.judge(c, false, "challenge", &|| format!("challenge {}", w), &k.comm, &k.resp, &ch, &r)?;
        let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &k.comm, &ch))?;
        v.judge(c, false, "challenge", &|| format!("challenge {}, response to it", w), &k.comm, &resp, &ch, &r)?;
    }
    // somebody who does not hold the chain's last key
    for (w, sk) in vec![("another's", z.sk[len].clone()), ("no", f(0)), ("the delegator's", x.sk[len - 1].clone())] {
        let resp = made(c, "respond", || "response".into(), || t.response(&k.comm, &sk, &k.ch, x.even.iter().skip(1).collect(), x.odd.iter().collect()).map_err(|e| e.to_string()))?;
        v.judge(c, false, "key", &|| format!("{} signing key", w), &k.comm, &resp, &k.ch, &r)?;
    }
    // keys of another chain
    for i in 1..len {
        let (mut e, mut o) = (x.even[1..].to_vec(), x.odd.clone());
        if i % 2 == 0 { e[i / 2 - 1] = z.even[i / 2].clone() } else { o[i / 2] = z.odd[i / 2].clone() }
        if let Some(resp) = verdict(c, "key", || format!("key {} of another chain", i), || t.response(&k.comm, &x.sk[len], &k.ch, e.iter().collect(), o.iter().collect()).map_err(|e| e.to_string()))? {
            v.judge(c, false, "key", &|| format!("key {} of another chain", i), &k.comm, &resp, &k.ch, &r)?;
        }
    }
    // a token of a chain of somebody else's, and one with one link of somebody else's
    ver(&x, &p, len, b"nonce").judge(c, false, "chain", &|| "token of another chain".into(), &d.comm, &d.resp, &d.ch, &r)?;
    for i in 0..len {
        let mut y = (*x).clone();
        if i % 2 == 0 { y.chain.odd_links[i / 2] = z.chain.odd_links[i / 2].clone() } else { y.chain.even_links[i / 2] = z.chain.even_links[i / 2].clone() }
        let mut t = AttributeToken::new(&y.chain, &p.0, &p.1);
        let k = token(c, &y, &mut t, &r, b"nonce")?;
        v.judge(c, false, "chain", &|| format!("link {} of another chain", i + 1), &k.comm, &k.resp, &k.ch, &r)?;
        for j in 0..shape[i] {
            // an attribute that was not signed
            let mut y = (*x).clone();
            if i % 2 == 0 { y.chain.odd_links[i / 2].attributes[j] = a1(77) } else { y.chain.even_links[i / 2].attributes[j] = a2(77) }
            let mut t = AttributeToken::new(&y.chain, &p.0, &p.1);
            let k = token(c, &y, &mut t, &r, b"nonce")?;
            v.judge(c, false, "attribute", &|| format!("attribute {} of link {} was not signed", j, i + 1), &k.comm, &k.resp, &k.ch, &r)?;
        }
    }
    // every element replaced by that of another token, or by the neutral element
    let (cv, rv) = (serde_json::to_value(&k.comm).unwrap(), serde_json::to_value(&k.resp).unwrap());
    let (dc, dr) = (serde_json::to_value(&d.comm).unwrap(), serde_json::to_value(&d.resp).unwrap());
    let neutral = [serde_json::to_value(G1::identity()).unwrap(), serde_json::to_value(G2::identity()).unwrap(), serde_json::to_value(f(0)).unwrap()];
    let parse = |v: &Value| -> Option<AttributeTokenComm> { serde_json::from_value(v.clone()).ok() };
    for l in jsonmut::leaves(&cv) {
        let old = jsonmut::get(&cv, &l);
        let mut by = vec![];
        if let Some(x) = dc.pointer(&l) { by.push(x.clone()) }
        if l.contains("odd_level_revealed") || l.contains("even_level_blinded") { by.push(neutral[0].clone()) }
        if l.contains("even_level_revealed") || l.contains("odd_level_blinded") { by.push(neutral[1].clone()) }
        for n in by {
            if n == *old { continue }
            let comm = match parse(&jsonmut::with(&cv, &l, n)) { Some(x) => x, None => return violation("json", format!("{} cannot be replaced", l)) };
            // the verifier computes these values itself
            if !l.starts_with("/comms_") { v.judge(c, false, "altered", &|| format!("{} replaced", l), &comm, &k.resp, &k.ch, &r)? }
            let ch = challenge(&comm, v.ipk, v.nonce);
            c.ensure(ch != k.ch, "binding", || format!("{} is not covered by the challenge", l))?;
            let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &k.comm, &ch))?;
            v.judge(c, false, "altered", &|| format!("{} replaced before the challenge", l), &comm, &resp, &ch, &r)?;
        }
    }
    for l in jsonmut::leaves(&rv) {
        let old = jsonmut::get(&rv, &l);
        let mut by = vec![jsonmut::get(&dr, &l).clone()];
        by.push(if l == "/resp_csk" { neutral[2].clone() } else if l.starts_with("/odd") { neutral[0].clone() } else { neutral[1].clone() });
        for n in by {
            if n == *old { continue }
            let resp: AttributeTokenResp = match serde_json::from_value(jsonmut::with(&rv, &l, n)) { Ok(x) => x, Err(e) => return violation("json", format!("{} cannot be replaced: {}", l, e)) };
            v.judge(c, false, "altered", &|| format!("{} replaced", l), &k.comm, &resp, &k.ch, &r)?;
        }
    }
    c.outcome(format!("{} links", len));
    Ok(())
}
/// Lists too long and too short, revealed attributes nobody proved.
fn lengths(c: &mut Ctx) -> R {
    let len = 1 + c.choose("links", c.q(3, 4));
    let (shape, r) = small(c, len);
    c.state(&(&shape, r.iter().map(|x| x.len()).collect::<Vec<_>>()));
    let p = params(0, MAX);
    let x = chain(0, MAX, &shape);
    let v = ver(&x, &p, len, b"nonce");
    let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
    let k = token(c, &x, &mut t, &r, b"nonce")?;
    for l in 0..len + 3 {
        if l != len { ver(&x, &p, l, b"nonce").judge(c, false, "length", &|| format!("a chain of {} links", l), &k.comm, &k.resp, &k.ch, &r)? }
    }
    for m in 0..MAX + 2 {
        let q = params(0, m);
        let fits = shape.iter().all(|s| s + 1 <= m);
        // precomputing for no attributes has no way to fail
        if m == 0 { continue }
        ver(&x, &q, len, b"nonce").judge(c, fits, "params", &|| format!("parameters for {} attributes", m), &k.comm, &k.resp, &k.ch, &r)?;
    }
    for m in 1..MAX {
        let q = params(0, m);
        let fits = shape.iter().all(|s| s + 1 <= m);
        let mut t = AttributeToken::new(&x.chain, &q.0, &q.1);
        makes(c, fits, "params", || format!("commitment with parameters for {} attributes", m), || t.commitment(r.clone()).map_err(|e| e.to_string()))?;
        // values precomputed for other parameters
        let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
        verdict(c, "params", || format!("precomputation for {} attributes", m), || t.commitment_with_precomputation_on_setup_params(r.clone(), &PrecompOnSetupParams::new(&q.0, &q.1)).map_err(|e| e.to_string()))?;
        verdict(c, "params", || format!("reconstruction with values precomputed for {} attributes", m), || {
            let pre = PrecompForCommitmentReconstitution::new(v.ipk, &q.0, &q.1);
            AttributeToken::reconstruct_commitment_with_precomputed_vals(len, &k.comm, &k.resp, &k.ch, r.clone(), &p.0, &p.1, &pre).map_err(|e| e.to_string())
        })?;
    }
    for m in 1..len {
        let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
        makes(c, false, "params", || format!("values precomputed for {} links", m), || t.commitment_with_precomputation(r.clone(), &PrecompOnSetupParams::new(&p.0, &p.1), &PrecompOnCredChain::new(&x.chain.get_truncated(m).unwrap(), &p.0, &p.1).unwrap()).map_err(|e| e.to_string()))?;
    }
    // what the verifier asks for
    let mut asks: Vec<(String, Rev)> = vec![("nothing".into(), vec![])];
    for i in 0..len {
        for j in 0..5usize {
            let mut q = r.clone();
            if !q[i].remove(&j) { q[i].insert(j); }
            asks.push((format!("another choice of attribute {} of link {}", j, i + 1), q));
        }
        // as many as shown, but others
        for j in r[i].iter() {
            for m in 0..5usize {
                if r[i].contains(&m) { continue }
                let mut q = r.clone();
                q[i].remove(j);
                q[i].insert(m);
                asks.push((format!("attribute {} instead of {} of link {}", m, j, i + 1), q));
            }
        }
        for j in 0..4usize {
            let mut q = r.clone();
            q[i] = (10..10 + j).collect();
            if q != r { asks.push((format!("attributes 10..{} of link {}", 10 + j, i + 1), q)) }
        }
        let mut q = r.clone();
        q.remove(i);
        asks.push((format!("no set for link {}", i + 1), q.clone()));
        q.push(HashSet::new());
        if q != r { asks.push((format!("set {} moved to the end", i + 1), q)) }
    }
    let mut q = r.clone();
    q.push(HashSet::new());
    asks.push(("a set more".into(), q));
    for (w, q) in &asks {
        v.judge(c, false, "asked", &|| w.clone(), &k.comm, &k.resp, &k.ch, q)?;
        // the prover is asked for the same
        let ok = q.len() == len && (0..len).all(|i| q[i].iter().all(|j| *j < shape[i]));
        let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
        makes(c, ok, "asked:prover", || w.clone(), || t.commitment(q.clone()).map_err(|e| e.to_string()))?;
    }
    // values for attributes that were not proved, known before the challenge
    for i in 0..len {
        for j in 0..6usize {
            if r[i].contains(&j) { continue }
            let mut comm = k.comm.clone();
            if i % 2 == 0 { comm.odd_level_revealed_attributes[i / 2].insert(j, a1(66)); } else { comm.even_level_revealed_attributes[i / 2].insert(j, a2(66)); }
            let ch = challenge(&comm, v.ipk, v.nonce);
            let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &k.comm, &ch))?;
            let mut q = r.clone();
            q[i].insert(j);
            v.judge(c, false, "unproved", &|| format!("attribute {} of link {} (of {}) was not proved", j, i + 1, shape[i]), &comm, &resp, &ch, &q)?;
            v.judge(c, false, "unproved", &|| format!("attribute {} of link {} (of {}) was neither proved nor asked for", j, i + 1, shape[i]), &comm, &resp, &ch, &r)?;
            verdict(c, "respond", || format!("response with attribute {} of link {} too many", j, i + 1), || respond(&x, &t, &comm, &ch))?;
        }
        // shown as the value of another attribute
        for j in r[i].iter() {
            for m in 0..shape[i] {
                if r[i].contains(&m) { continue }
                let mut comm = k.comm.clone();
                if i % 2 == 0 { let a = &mut comm.odd_level_revealed_attributes[i / 2]; let x = a.remove(j).unwrap(); a.insert(m, x); } else { let a = &mut comm.even_level_revealed_attributes[i / 2]; let x = a.remove(j).unwrap(); a.insert(m, x); }
                let ch = challenge(&comm, v.ipk, v.nonce);
                let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &k.comm, &ch))?;
                let mut q = r.clone();
                q[i].remove(j);
                q[i].insert(m);
                v.judge(c, false, "renamed", &|| format!("attribute {} of link {} shown as {}", j, i + 1, m), &comm, &resp, &ch, &q)?;
                v.judge(c, false, "renamed", &|| format!("attribute {} of link {} shown as {}, which was not asked for", j, i + 1, m), &comm, &resp, &ch, &r)?;
            }
        }
        for j in r[i].iter() {
            let mut comm = k.comm.clone();
            if i % 2 == 0 { comm.odd_level_revealed_attributes[i / 2].remove(j); } else { comm.even_level_revealed_attributes[i / 2].remove(j); }
            let ch = challenge(&comm, v.ipk, v.nonce);
            let resp = made(c, "respond", || "response".into(), || respond(&x, &t, &k.comm, &ch))?;
            v.judge(c, false, "unproved", &|| format!("attribute {} of link {} is missing", j, i + 1), &comm, &resp, &ch, &r)?;
            verdict(c, "respond", || format!("response with attribute {} of link {} missing", j, i + 1), || respond(&x, &t, &comm, &ch))?;
        }
    }
    // every list of the token
    let (cv, rv) = (serde_json::to_value(&k.comm).unwrap(), serde_json::to_value(&k.resp).unwrap());
    let forms = |v: &Value| -> Vec<(String, Value)> {
        let mut out = vec![];
        for l in jsonmut::containers(v) {
            match jsonmut::get(v, &l) {
                Value::Array(a) => {
                    for i in 0..a.len() { let mut b = a.clone(); b.remove(i); out.push((format!("{} without element {}", l, i), jsonmut::with(v, &l, Value::Array(b)))) }
                    if a.len() > 1 { out.push((format!("{} emptied", l), jsonmut::with(v, &l, json!([])))) }
                    if let Some(x) = a.last() { let mut b = a.clone(); b.push(x.clone()); out.push((format!("{} with its last element twice", l), jsonmut::with(v, &l, Value::Array(b)))) }
                }
                _ => (),
            }
        }
        // an element moved from one list to another of the same object
        if let Value::Object(m) = v {
            for (k1, a) in m { for (k2, b) in m { if let (Value::Array(a), Value::Array(b)) = (a, b) { if k1 != k2 && !a.is_empty() {
                let (mut a, mut b) = (a.clone(), b.clone());
                b.push(a.pop().unwrap());
                out.push((format!("last of {} moved to {}", k1, k2), jsonmut::with(&jsonmut::with(v, &format!("/{}", k1), json!(a)), &format!("/{}", k2), json!(b))));
            } } } }
        }
        out
    };
    for (w, n) in forms(&cv) {
        let comm: AttributeTokenComm = match serde_json::from_value(n) { Ok(x) => x, Err(_) => continue };
        v.judge(c, false, "lengths", &|| w.clone(), &comm, &k.resp, &k.ch, &r)?;
        let ch = challenge(&comm, v.ipk, v.nonce);
        if let Some(resp) = verdict(c, "respond", || w.clone(), || respond(&x, &t, &comm, &ch))? { v.judge(c, false, "lengths", &|| format!("{} before the challenge", w), &comm, &resp, &ch, &r)? }
    }
    for (w, n) in forms(&rv) {
        let resp: AttributeTokenResp = match serde_json::from_value(n) { Ok(x) => x, Err(_) => continue };
        // elements in excess say nothing
        if w.contains("twice") { v.both(c, "lengths", &|| w.clone(), &k.comm, &resp, &k.ch, &r)?; } else { v.judge(c, false, "lengths", &|| w.clone(), &k.comm, &resp, &k.ch, &r)? }
    }
    // two lists at a time
    for (w1, n1) in forms(&cv).iter().step_by(c.q(3, 1)) {
        let comm: AttributeTokenComm = match serde_json::from_value(n1.clone()) { Ok(x) => x, Err(_) => continue };
        for (w2, n2) in forms(&rv).iter().step_by(c.q(3, 1)) {
            if let Ok(resp) = serde_json::from_value::<AttributeTokenResp>(n2.clone()) { v.judge(c, false, "lengths", &|| format!("{} and {}", w1, w2), &comm, &resp, &k.ch, &r)? }
        }
    }
    Ok(())
}
/// Every sequence of calls on one token.
fn calls(c: &mut Ctx) -> R {
    let len = 1 + c.choose("links", c.q(2, 3));
    let shape = vec![1; len];
    let p = params(0, MAX);
    let x = chain(0, MAX, &shape);
    let v = ver(&x, &p, len, b"nonce");
    let mut t = AttributeToken::new(&x.chain, &p.0, &p.1);
    let mut last: Option<(AttributeTokenComm, Rev)> = None;
    let mut done = vec![];
    for _ in 0..c.q(3, 4) {
        let op = c.choose("call", 8);
        done.push(op);
        c.state(&(len, &done));
        match op {
            0 | 1 => {
                let r = rev(&vec![if op == 0 { vec![] } else { vec![0] }; len]);
                let comm = made(c, "calls", || format!("commitment, calls {:?}", done), || t.commitment(r.clone()).map_err(|e| e.to_string()))?;
                last = Some((comm, r));
            }
            2 | 3 | 4 => {
                // refused; what was committed to before is gone or still good
                let mut r = rev(&vec![vec![]; len]);
                match op { 2 => { r.pop(); } 3 => { r[len - 1].insert(1); } _ => { r[len - 1] = (0..MAX + 1).collect(); } }
                makes(c, false, "calls", || format!("commitment, calls {:?}", done), || t.commitment(r.clone()).map_err(|e| e.to_string()))?;
            }
            5 => match &last {
                None => {
                    let mut other = AttributeToken::new(&x.chain, &p.0, &p.1);
                    let comm = other.commitment(rev(&vec![vec![]; len])).unwrap();
                    makes(c, false, "calls", || format!("response before a commitment, calls {:?}", done), || respond(&x, &t, &comm, &f(5)))?;
                }
                Some((comm, r)) => {
                    let ch = challenge(comm, v.ipk, v.nonce);
                    let failed = done.iter().rev().find(|o| **o < 5).map_or(false, |o| *o >= 2);
                    match verdict(c, "calls", || format!("response, calls {:?}", done), || respond(&x, &t, comm, &ch))? {
                        Some(resp) => v.judge(c, true, "calls", &|| format!("calls {:?}", done), comm, &resp, &ch, r)?,
                        None => c.ensure(failed, "calls", || format!("response refused, calls {:?}", done))?,
                    }
                }
            },
            6 => if let Some((comm, _)) = &last {
                // too few keys
                makes(c, len == 1, "calls:keys", || format!("response without keys, calls {:?}", done), || if done[..done.len() - 1].iter().rev().find(|o| **o < 5).map_or(false, |o| *o >= 2) { if len == 1 { Ok(()) } else { t.response(comm, &x.sk[len], &f(5), vec![], vec![]).map(|_| ()).map_err(|e| e.to_string()) } } else { t.response(comm, &x.sk[len], &f(5), vec![], vec![]).map(|_| ()).map_err(|e| e.to_string()) })?;
            },
            _ => {
                // the commitment of another token
                let mut other = AttributeToken::new(&x.chain, &p.0, &p.1);
                let comm = other.commitment(rev(&vec![vec![0]; len])).unwrap();
                let ch = challenge(&comm, v.ipk, v.nonce);
                if let Some(resp) = verdict(c, "calls", || format!("response to another commitment, calls {:?}", done), || respond(&x, &t, &comm, &ch))? {
                    v.judge(c, false, "calls", &|| format!("response to another commitment, calls {:?}", done), &comm, &resp, &ch, &rev(&vec![vec![0]; len]))?;
                }
            }
        }
    }
    Ok(())
}
pub fn build(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    Check {
        rule: "An attribute token is accepted exactly when its maker holds the last key of a valid chain whose links carry the revealed attributes; both ways to make and to check one agree; malformed ones are refused".into(),
        assumptions: vec!["pairing and group arithmetic of amcl_wrapper".into(), "the chain was verified before, as the documentation asks".into(), "the verifier compares the challenge over the reconstructed commitment".into()],
        scenarios: vec![
            Scenario::new("honest", format!("up to {} links of up to 2 attributes, every choice of revealed ones (of {} links the same choice in all)", if th { 5 } else { 4 }, if th { 5 } else { 4 }), honest),
            Scenario::new("altered", format!("up to {} links, every element replaced before and after the challenge", if th { 4 } else { 3 }), altered),
            Scenario::new("lengths", format!("up to {} links, every list longer and shorter, two lists at a time, every revealed index up to 5", if th { 4 } else { 3 }), lengths),
            Scenario::new("hiding", format!("up to {} links of up to 3 attributes, 3 choices of revealed ones, every way to commit: secrets and blindings from two answers of each of two tokens", if th { 6 } else { 4 }), crate::large::token_hiding),
            Scenario::new("calls", format!("up to {} links, every sequence of {} calls", if th { 3 } else { 2 }, if th { 4 } else { 3 }), calls),
        ],
    }
}
