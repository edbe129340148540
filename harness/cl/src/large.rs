//! C04, C05: registries as large as they get in practice.  The tails are computed when they are asked
//! for, from the generator set to the tail's number.
use crate::world::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use ursa::cl::issuer::Issuer;
use ursa::cl::*;
use ursa::errors::{UrsaCryptoError, UrsaCryptoErrorKind};
use ursa::pair::{GroupOrderElement, PointG2};

pub struct Lazy {
    gen: Value,
    max: u32,
    known: Mutex<BTreeMap<u32, Tail>>,
}
impl RevocationTailsAccessor for Lazy {
    fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> U<()> {
        let have = self.known.lock().unwrap().get(&id).cloned();
        let t = match have {
            Some(t) => t,
            None => {
                let no = || UrsaCryptoError::from_msg(UrsaCryptoErrorKind::InvalidStructure, format!("no tail {}", id));
                if u64::from(id) > 2 * u64::from(self.max) {
                    return Err(no());
                }
                let mut g = self.gen.clone();
                g["current_index"] = json!(id);
                let mut g: RevocationTailsGenerator = unj(&g).map_err(|_| no())?;
                let t = g.try_next()?.ok_or_else(no)?;
                self.known.lock().unwrap().insert(id, t);
                t
            }
        };
        f(&t);
        Ok(())
    }
}
pub struct Big {
    pub max: u32,
    pub by_default: bool,
    pub pubk: RevocationKeyPublic,
    pub priv_: RevocationKeyPrivate,
    pub reg0: RevocationRegistry,
    pub tails: Lazy,
    g: PointG2,
    gamma: GroupOrderElement,
    known: Mutex<BTreeMap<u64, PointG2>>,
}
pub fn big(pk: &CredentialPublicKey, max: u32, by_default: bool) -> Big {
    let (pubk, priv_, reg0, gen) = Issuer::new_revocation_registry_def(pk, max, by_default).expect("registry");
    let g: PointG2 = unj(&jval(pk)["r_key"]["g_dash"]).unwrap();
    let gamma: GroupOrderElement = unj(&jval(&priv_)["gamma"]).unwrap();
    Big { max, by_default, pubk, priv_, reg0, tails: Lazy { gen: jval(&gen), max, known: Mutex::new(BTreeMap::new()) }, g, gamma, known: Mutex::new(BTreeMap::new()) }
}
impl Big {
    /// g'^(gamma^k), by squarings of the private key
    fn power(&self, k: u64) -> PointG2 {
        if let Some(p) = self.known.lock().unwrap().get(&k) {
            return *p;
        }
        let mut p = GroupOrderElement::from_bytes(&[1]).unwrap();
        for bit in (0..64).rev() {
            p = p.mul_mod(&p).unwrap();
            if k >> bit & 1 == 1 {
                p = p.mul_mod(&self.gamma).unwrap();
            }
        }
        let r = self.g.mul(&p).unwrap();
        self.known.lock().unwrap().insert(k, r);
        r
    }
    fn sum(&self, ks: impl Iterator<Item = u64>) -> PointG2 {
        ks.fold(PointG2::new_inf().unwrap(), |a, k| a.add(&self.power(k)).unwrap())
    }
    fn accum(&self, v: &BTreeSet<u32>) -> PointG2 {
        self.sum(v.iter().map(|j| u64::from(self.max) + 1 - u64::from(*j)))
    }
    fn omega(&self, v: &BTreeSet<u32>, i: u32) -> PointG2 {
        self.sum(v.iter().filter(|j| **j != i).map(|j| u64::from(self.max) + 1 - u64::from(*j) + u64::from(i)))
    }
}
/// Around the sizes where an index needs another byte.
fn indexes(max: u32) -> Vec<u32> {
    let mut v: BTreeSet<u32> = vec![1, 2, max - 1, max].into_iter().collect();
    for k in &[7, 8, 15, 16, 24, 30] {
        for d in -1..=1i64 {
            let x = (1i64 << k) + d;
            if x >= 1 && x <= i64::from(max) {
                v.insert(x as u32);
            }
        }
    }
    v.into_iter().collect()
}
fn accum(reg: &RevocationRegistry) -> PointG2 {
    unj(&jval(reg)["accum"]).unwrap()
}
fn omega(w: &Witness) -> PointG2 {
    unj(&jval(w)["omega"]).unwrap()
}
fn sets(d: &RevocationRegistryDelta) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let v = jval(d);
    let get = |k: &str| -> BTreeSet<u32> {
        v.get(k).and_then(|x| x.as_array()).map(|x| x.iter().map(|y| y.as_u64().unwrap() as u32).collect()).unwrap_or_default()
    };
    (get("issued"), get("revoked"))
}

/// Bulk updates with many indexes: everything, every other, the first and last few.
pub fn updates(bigs: &[Big], c: &mut Ctx) -> R {
    let b = &bigs[c.choose("registry", bigs.len())];
    let idx = indexes(b.max);
    let what = |s: &str| format!("registry of {}, issued by default {}: {}", b.max, b.by_default, s);
    let parts: Vec<BTreeSet<u32>> = vec![
        idx.iter().cloned().collect(),
        idx.iter().cloned().step_by(2).collect(),
        idx.iter().cloned().take(5).collect(),
        idx.iter().cloned().rev().take(7).collect(),
        idx.iter().cloned().take(1).collect(),
    ];
    let mut v: BTreeSet<u32> = if b.by_default { (1..=b.max).collect() } else { BTreeSet::new() };
    let start = v.clone();
    let mut reg = b.reg0.clone();
    c.ensure(accum(&reg) == b.accum(&v), "large:new", || what("the new registry"))?;
    let mut total = empty_delta(&reg);
    let who: Vec<u32> = idx.iter().cloned().step_by(3).collect();
    let mut ws: Vec<Witness> = vec![];
    for i in &who {
        ws.push(Witness::new(*i, b.max, b.by_default, &total, &b.tails).unwrap());
    }
    for k in 0..c.q(2, 3) {
        let p = c.choose(&format!("update {}", k), parts.len());
        let (rev, iss): (BTreeSet<u32>, BTreeSet<u32>) = parts[p].iter().partition(|j| v.contains(j));
        for j in &rev {
            v.remove(j);
        }
        for j in &iss {
            v.insert(*j);
        }
        c.state(&(b.max, b.by_default, &v));
        let d = match guard(|| Issuer::update_revocation_registry(&mut reg, b.max, iss.clone(), rev.clone(), &b.tails)) {
            Ok(Ok(d)) => d,
            e => return violation("large:update", what(&format!("issued {:?}, revoked {:?}: {:?}", iss, rev, e.map(|x| x.map(|_| ()))))),
        };
        c.step();
        c.ensure(accum(&reg) == b.accum(&v), "large:accum", || what(&format!("the accumulator after issuing {:?}, revoking {:?}", iss, rev)))?;
        c.ensure(sets(&d) == (iss.clone(), rev.clone()), "large:delta", || what(&format!("the delta after issuing {:?}, revoking {:?}", iss, rev)))?;
        if let Err(e) = total.merge(&d) {
            return violation("large:merge", what(&format!("{}", e)));
        }
        let (wi, wr): (BTreeSet<u32>, BTreeSet<u32>) = (v.difference(&start).cloned().collect(), start.difference(&v).cloned().collect());
        c.ensure(sets(&total) == (wi.clone(), wr.clone()), "large:merged", || what(&format!("the deltas merged: {:?} instead of {:?}", sets(&total), (&wi, &wr))))?;
        for (n, i) in who.iter().enumerate() {
            let want = b.omega(&v, *i);
            if let Err(e) = ws[n].update(*i, b.max, &d, &b.tails) {
                return violation("large:witness", what(&format!("witness of {}: {}", i, e)));
            }
            c.eval(1);
            c.ensure(omega(&ws[n]) == want, "large:updated", || what(&format!("the updated witness of {} after issuing {:?}, revoking {:?}", i, iss, rev)))?;
            let w = Witness::new(*i, b.max, b.by_default, &total, &b.tails).unwrap();
            c.ensure(omega(&w) == want, "large:made", || what(&format!("the witness made for {} after issuing {:?}, revoking {:?}", i, iss, rev)))?;
        }
    }
    c.outcome("ok");
    Ok(())
}

/// A credential with a large index, valid, revoked and valid again.
pub fn credentials(i: &Iss, bigs: &[Big], c: &mut Ctx) -> R {
    let b = &bigs[c.choose("registry", bigs.len())];
    let idx = c.pick("index", &indexes(b.max));
    c.state(&(b.max, b.by_default, idx));
    let what = |s: &str| format!("registry of {}, issued by default {}, index {}: {}", b.max, b.by_default, idx, s);
    let mut reg = b.reg0.clone();
    let mut full = empty_delta(&reg);
    let r = guard(|| issue_rev_with(&b.tails, i, &std_vals(MS1, "28", NAME), PROVER_ID, (&b.pubk, &b.priv_, b.max, b.by_default), &mut reg, idx, &full));
    let (cred, mut w, d) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return violation("large:issue", what(&format!("not issued: {}", e))),
        Err(p) => return violation("large:issue", what(&format!("panic: {}", p))),
    };
    if let Some(d) = d {
        full.merge(&d).unwrap();
    }
    c.ensure(cred.sig.extract_index() == Some(idx), "large:index", || what("extract_index"))?;
    let q = req(&["name"], &[("age", "GE", 18)]);
    let nonce = new_nonce().unwrap();
    let go = |reg: &RevocationRegistry, w: &Witness| {
        judge(|| {
            let p = prove(&[Part { iss: i, cred: &cred, req: q.clone(), rev: Some((reg, w)) }], &[], &nonce)?;
            verify(&p, &[Want::of(i, &q).rev(&b.pubk, reg)], &[], &nonce)
        })
    };
    expect(c, go(&reg, &w), true, "large:valid", || what("valid"))?;
    let other = if idx > 1 { idx - 1 } else { idx + 1 };
    let one = |x: u32| -> BTreeSet<u32> { vec![x].into_iter().collect() };
    // another credential comes (or goes), then this one goes and comes back
    let (oi, or) = if b.by_default { (BTreeSet::new(), one(other)) } else { (one(other), BTreeSet::new()) };
    let steps = vec![(oi, or, true), (BTreeSet::new(), one(idx), false), (one(idx), BTreeSet::new(), true)];
    for (n, (iss, rev, valid)) in steps.into_iter().enumerate() {
        let d = match Issuer::update_revocation_registry(&mut reg, b.max, iss, rev, &b.tails) {
            Ok(d) => d,
            Err(e) => return violation("large:step", what(&format!("step {}: {}", n, e))),
        };
        w.update(idx, b.max, &d, &b.tails).unwrap();
        expect(c, go(&reg, &w), valid, if valid { "large:valid" } else { "large:revoked" }, || what(&format!("step {}", n)))?;
    }
    Ok(())
}

pub fn for_updates(i: &Iss, t: Tier) -> Arc<Vec<Big>> {
    let mut sizes = vec![(300, true), (300, false), (70_000, false), ((1u32 << 31) - 1, false)];
    if t == Tier::Thorough {
        sizes.push((1000, true));
        sizes.push((1 << 25, false));
    }
    Arc::new(sizes.into_iter().map(|(n, d)| big(&i.pk, n, d)).collect())
}
pub fn for_credentials(i: &Iss) -> Arc<Vec<Big>> {
    Arc::new(vec![big(&i.pk, 300, true), big(&i.pk, (1 << 31) - 1, false)])
}
