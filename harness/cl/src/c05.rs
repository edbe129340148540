//! C05: the accumulator algebra: registries, deltas and witnesses agree along every history.
use crate::world::*;
use mc::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::*;
use ursa::errors::{UrsaCryptoError, UrsaCryptoErrorKind};
use ursa::pair::{GroupOrderElement, PointG2};

type Set = BTreeSet<u32>;
pub struct Acc {
    pub l: u32,
    pub regs: [Reg; 2],
    /// g'^(gamma^k) for k = 0..2L, for each of the registries, from the private key
    pub pows: [Vec<PointG2>; 2],
}
fn powers(pk: &CredentialPublicKey, r: &Reg, l: u32) -> Vec<PointG2> {
    let g: PointG2 = unj(&jval(pk)["r_key"]["g_dash"]).unwrap();
    let gamma: GroupOrderElement = unj(&jval(&r.priv_)["gamma"]).unwrap();
    let mut p = GroupOrderElement::from_bytes(&[1]).unwrap();
    let mut out = vec![];
    for _ in 0..=2 * l {
        out.push(g.mul(&p).unwrap());
        p = p.mul_mod(&gamma).unwrap();
    }
    out
}
pub fn acc(i: &Iss, l: u32) -> Acc {
    let regs = [new_registry(&i.pk, l, false), new_registry(&i.pk, l, true)];
    let pows = [powers(&i.pk, &regs[0], l), powers(&i.pk, &regs[1], l)];
    Acc { l, regs, pows }
}
fn sum(pows: &[PointG2], idx: impl Iterator<Item = u32>) -> PointG2 {
    idx.fold(PointG2::new_inf().unwrap(), |a, k| a.add(&pows[k as usize]).unwrap())
}
fn accum(reg: &RevocationRegistry) -> PointG2 {
    unj(&jval(reg)["accum"]).unwrap()
}
fn omega(w: &Witness) -> PointG2 {
    unj(&jval(w)["omega"]).unwrap()
}
fn want_accum(a: &Acc, d: usize, v: &Set) -> PointG2 {
    sum(&a.pows[d], v.iter().map(|j| a.l + 1 - j))
}
fn want_omega(a: &Acc, d: usize, v: &Set, i: u32) -> PointG2 {
    sum(&a.pows[d], v.iter().filter(|j| **j != i).map(|j| a.l + 1 - j + i))
}
fn idx(v: &Value, k: &str) -> Set {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.iter().map(|y| y.as_u64().unwrap() as u32).collect()).unwrap_or_default()
}
fn set_of(mask: usize) -> Set {
    (0..8).filter(|k| mask >> k & 1 == 1).map(|k| k + 1).collect()
}

/// One step of a history: toggles the members of a set.
#[derive(Clone, Debug, Hash)]
pub enum Op {
    Single(u32),
    Update(Set),
}
fn toggles(o: &Op) -> Set {
    match o {
        Op::Single(i) => vec![*i].into_iter().collect(),
        Op::Update(s) => s.clone(),
    }
}
pub fn apply<T: RevocationTailsAccessor>(o: &Op, v: &mut Set, reg: &mut RevocationRegistry, l: u32, t: &T) -> U<RevocationRegistryDelta> {
    let tog = toggles(o);
    let (rev, iss): (Set, Set) = tog.iter().partition(|j| v.contains(j));
    let d = match o {
        Op::Single(i) if v.contains(i) => Issuer::revoke_credential(reg, l, *i, t)?,
        Op::Single(i) => Issuer::recovery_credential(reg, l, *i, t)?,
        Op::Update(_) => Issuer::update_revocation_registry(reg, l, iss, rev, t)?,
    };
    for j in tog {
        if !v.remove(&j) {
            v.insert(j);
        }
    }
    Ok(d)
}
fn ops(l: u32) -> Vec<Op> {
    let mut o: Vec<Op> = (1..=l).map(Op::Single).collect();
    o.extend((0..1usize << l).filter(|m| m.count_ones() != 1 || *m == 1).map(|m| Op::Update(set_of(m))));
    o
}

fn delta_is(c: &mut Ctx, a: &Acc, d: usize, delta: &RevocationRegistryDelta, from: Option<&Set>, to: &Set, start: &Set, key: &str, what: &str) -> R {
    let v = jval(delta);
    let prev: Option<PointG2> = v.get("prevAccum").or(v.get("prev_accum")).filter(|x| !x.is_null()).map(|x| unj(x).unwrap());
    let acc_: PointG2 = unj(&v["accum"]).unwrap();
    let (iss, rev) = (idx(&v, "issued"), idx(&v, "revoked"));
    let (wi, wr): (Set, Set) = (to.difference(start).cloned().collect(), start.difference(to).cloned().collect());
    c.step();
    c.ensure(acc_ == want_accum(a, d, to), &format!("{}:accum", key), || format!("{}: the accumulator is not that of {:?}", what, to))?;
    c.ensure(prev == from.map(|f| want_accum(a, d, f)), &format!("{}:prev", key), || format!("{}: the previous accumulator is not that of {:?}", what, from))?;
    c.ensure(iss == wi && rev == wr, &format!("{}:sets", key), || {
        format!("{}: issued {:?}, revoked {:?}; from {:?} to {:?} it should be {:?}, {:?}", what, iss, rev, start, to, wi, wr)
    })
}

/// Every history of registry operations; every way to merge its deltas; every witness.
fn history(a: &Acc, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &a.regs[d];
    let n = c.choose("length", 1 + c.q(4, 5));
    let all = ops(a.l);
    let mut v: Set = if d == 1 { (1..=a.l).collect() } else { Set::new() };
    let mut reg = r.reg0.clone();
    let mut vs = vec![v.clone()];
    let mut deltas = vec![];
    c.ensure(accum(&reg) == want_accum(a, d, &v), "initial", || "the new registry's accumulator".into())?;
    for k in 0..n {
        let o = c.pick(&format!("operation {}", k), &all);
        let before = v.clone();
        let delta = match guard(|| apply(&o, &mut v, &mut reg, a.l, &r.tails)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return violation("history:refused", format!("{:?} in {:?}: {}", o, before, e)),
            Err(p) => return violation("history:panic", format!("{:?} in {:?}: {}", o, before, p)),
        };
        c.state(&(d, &v));
        c.ensure(accum(&reg) == want_accum(a, d, &v), "history:registry", || format!("after {:?} in {:?}: the registry's accumulator is not that of {:?}", o, before, v))?;
        delta_is(c, a, d, &delta, Some(&before), &v, &before, "delta", &format!("delta of {:?} in {:?}", o, before))?;
        vs.push(v.clone());
        deltas.push(delta);
    }
    c.outcome(format!("{} operations", n));
    // all segmentations of the history
    for cut in 0..1usize << n.saturating_sub(1) {
        let mut segs: Vec<(usize, usize)> = vec![];
        let mut s = 0;
        for k in 0..n {
            if k + 1 == n || cut >> k & 1 == 1 {
                segs.push((s, k + 1));
                s = k + 1;
            }
        }
        let mut merged = vec![];
        for (s, e) in &segs {
            let mut m = deltas[*s].clone();
            for k in s + 1..*e {
                if let Err(x) = m.merge(&deltas[k]) {
                    return violation("merge:refused", format!("deltas {}..{} of {:?}: {}", s, e, vs, x));
                }
            }
            delta_is(c, a, d, &m, Some(&vs[*s]), &vs[*e], &vs[*s], "merge", &format!("deltas {}..{} of {:?} merged", s, e, vs))?;
            merged.push(m);
        }
        // the whole history from the registry's creation on, merging the merged deltas in turn
        let mut full = empty_delta(&r.reg0);
        for (m, (_, e)) in merged.iter().zip(&segs) {
            // what begins with nothing has no previous accumulator but the creation's
            if let Err(x) = full.merge(m) {
                return violation("merge:refused", format!("full delta to {} of {:?}: {}", e, vs, x));
            }
            delta_is(c, a, d, &full, None, &vs[*e], &vs[0], "merge-full", &format!("full delta to {} of {:?}", e, vs))?;
            for i in 1..=a.l {
                let w = Witness::new(i, a.l, d == 1, &full, &r.tails).map_err(|x| Violation { key: "witness:new".into(), msg: x.to_string() })?;
                c.ensure(omega(&w) == want_omega(a, d, &vs[*e], i), "witness:new", || format!("Witness::new of {} for {:?}", i, vs[*e]))?;
            }
        }
        // a witness made at any of the cuts, updated with the rest
        let mut full = empty_delta(&r.reg0);
        for k in 0..=segs.len() {
            for i in 1..=a.l {
                let mut w = Witness::new(i, a.l, d == 1, &full, &r.tails).map_err(|x| Violation { key: "witness:new".into(), msg: x.to_string() })?;
                for (m, (_, e)) in merged[k..].iter().zip(&segs[k..]) {
                    if let Err(x) = w.update(i, a.l, m, &r.tails) {
                        return violation("witness:update", format!("witness {} of {:?}: {}", i, vs, x));
                    }
                    c.step();
                    c.ensure(omega(&w) == want_omega(a, d, &vs[*e], i), "witness:update", || {
                        format!("witness {} made at segment {} of {:?} and updated to {}", i, k, vs, e)
                    })?;
                }
            }
            if k < segs.len() {
                full.merge(&merged[k]).unwrap();
            }
        }
    }
    // deltas that do not follow each other do not merge
    for x in 0..n {
        for y in 0..n {
            let follows = vs[x + 1] == vs[y];
            let mut m = deltas[x].clone();
            let before = jval(&m).to_string().len();
            let ok = m.merge(&deltas[y]).is_ok();
            c.ensure(ok == follows, "merge:order", || format!("delta {} merged with delta {} of {:?}: {}", x, y, vs, ok))?;
            if !ok {
                delta_is(c, a, d, &m, Some(&vs[x]), &vs[x + 1], &vs[x], "merge:failed", "a delta after a refused merge")?;
                c.ensure(jval(&m).to_string().len() == before, "merge:failed", || "a refused merge changes the delta".into())?;
            }
        }
    }
    Ok(())
}

/// Tails that fail at the k-th access.
struct Faulty<'a> {
    t: &'a SimpleTailsAccessor,
    left: std::cell::Cell<usize>,
}
impl<'a> RevocationTailsAccessor for Faulty<'a> {
    fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> U<()> {
        if self.left.get() == 0 {
            return Err(UrsaCryptoError::from_msg(UrsaCryptoErrorKind::IOError, "fault"));
        }
        self.left.set(self.left.get() - 1);
        self.t.access_tail(id, f)
    }
}

/// An operation that fails leaves the registry and the witness as they were.
fn faults(a: &Acc, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &a.regs[d];
    let mut v: Set = if d == 1 { (1..=a.l).collect() } else { Set::new() };
    let mut reg = r.reg0.clone();
    let first = c.pick("first", &ops(a.l));
    let d1 = apply(&first, &mut v, &mut reg, a.l, &r.tails).unwrap();
    let mut full = empty_delta(&r.reg0);
    full.merge(&d1).unwrap();
    let op = c.pick("operation", &ops(a.l));
    let left = c.choose("fault at access", 4);
    let f = Faulty { t: &r.tails, left: std::cell::Cell::new(left) };
    let before = v.clone();
    c.state(&(d, &before, &op, left));
    let res = guard(|| apply(&op, &mut v, &mut reg, a.l, &f));
    c.step();
    match res {
        Err(p) => return violation("faults:panic", p),
        Ok(Ok(delta)) => {
            c.outcome("done");
            c.ensure(left >= toggles(&op).len(), "faults:ignored", || format!("{:?} succeeds though access {} fails", op, left))?;
            c.ensure(accum(&reg) == want_accum(a, d, &v), "faults:registry", || "the registry's accumulator".into())?;
            // the witness's update fails at each of its accesses
            for i in 1..=a.l {
                let mut w = Witness::new(i, a.l, d == 1, &full, &r.tails).unwrap();
                let need = toggles(&op).iter().filter(|j| **j != i).count();
                for k in 0..=need {
                    let f = Faulty { t: &r.tails, left: std::cell::Cell::new(k) };
                    let mut w2 = w.clone();
                    let ok = w2.update(i, a.l, &delta, &f).is_ok();
                    c.ensure(ok == (k == need), "faults:witness", || format!("witness {} updated with {:?} when access {} fails: {}", i, op, k, ok))?;
                    let want = if ok { &v } else { &before };
                    c.ensure(omega(&w2) == want_omega(a, d, want, i), "faults:witness-value", || format!("witness {} after {:?} with a fault at {}: {}", i, op, k, ok))?;
                    let n = if d == 1 { before.len() } else { before.len() };
                    let f = Faulty { t: &r.tails, left: std::cell::Cell::new(n.saturating_sub(1 + before.contains(&i) as usize)) };
                    if before.iter().filter(|j| **j != i).count() > 0 {
                        c.ensure(Witness::new(i, a.l, d == 1, &full, &f).is_err(), "faults:witness-new", || "Witness::new ignores a failing access".into())?;
                    }
                }
                w.update(i, a.l, &delta, &r.tails).unwrap();
            }
        }
        Ok(Err(_)) => {
            c.outcome("refused");
            c.ensure(left < toggles(&op).len(), "faults:refused", || format!("{:?} refused, though no access fails", op))?;
            c.ensure(accum(&reg) == want_accum(a, d, &before), "faults:registry", || {
                format!("{:?} fails at access {} and leaves the registry changed", op, left)
            })?;
        }
    }
    Ok(())
}

/// Indexes outside the registry are refused everywhere, and nothing changes.
fn ranges(a: &Acc, c: &mut Ctx) -> R {
    let d = c.choose("issued by default", 2);
    let r = &a.regs[d];
    let l = a.l;
    let bad = c.pick("index", &[0, l + 1, l + 2, 2 * l, 2 * l + 1, 1 << 31, u32::MAX]);
    let op = c.choose("operation", 7);
    let mut reg = r.reg0.clone();
    let v: Set = if d == 1 { (1..=l).collect() } else { Set::new() };
    let good = *[1, 2, l].iter().nth(c.choose("valid index", 3)).unwrap();
    c.state(&(d, bad, op, good));
    let one = |i: u32| -> Set { vec![i].into_iter().collect() };
    let both = |i: u32| -> Set { vec![i, good].into_iter().collect() };
    let h = |i: u32| -> HashSet<u32> { vec![i, good].into_iter().collect() };
    let none = HashSet::new();
    let w0 = Witness::new(good, l, d == 1, &empty_delta(&reg), &r.tails).unwrap();
    let mut w = w0.clone();
    let (reg0, reg1) = (reg.clone(), reg.clone());
    let res = guard(|| match op {
        0 => Issuer::revoke_credential(&mut reg, l, bad, &r.tails).map(|_| ()),
        1 => Issuer::recovery_credential(&mut reg, l, bad, &r.tails).map(|_| ()),
        2 => Issuer::update_revocation_registry(&mut reg, l, one(bad), Set::new(), &r.tails).map(|_| ()),
        3 => Issuer::update_revocation_registry(&mut reg, l, Set::new(), both(bad), &r.tails).map(|_| ()),
        4 => Witness::new(bad, l, d == 1, &RevocationRegistryDelta::from_parts(None, &reg0, &h(good), &none), &r.tails).map(|_| ()),
        5 => w.update(good, l, &RevocationRegistryDelta::from_parts(Some(&reg0), &reg1, &h(bad), &none), &r.tails),
        _ => w.update(good, l, &RevocationRegistryDelta::from_parts(Some(&reg0), &reg1, &none, &h(bad)), &r.tails),
    });
    c.step();
    match res {
        Err(p) => violation("ranges:panic", format!("index {} in operation {}: {}", bad, op, p)),
        Ok(Ok(())) => violation("ranges:accepted", format!("index {} of a registry of {} accepted by operation {}", bad, l, op)),
        Ok(Err(_)) => {
            c.outcome("refused");
            c.ensure(accum(&reg) == want_accum(a, d, &v), "ranges:registry", || format!("a refused operation {} with index {} changes the registry", op, bad))?;
            c.ensure(omega(&w) == omega(&w0), "ranges:witness", || format!("a refused operation {} with index {} changes the witness", op, bad))
        }
    }
}

/// The tails are the powers of gamma, all of them, once each.
fn tails(i: &Iss, c: &mut Ctx) -> R {
    let l = c.pick("size", &[1u32, 2, 3, 5, 140]);
    let d = c.flag("issued by default");
    c.state(&(l, d));
    let (_, priv_, reg, mut gen) = Issuer::new_revocation_registry_def(&i.pk, l, d).unwrap();
    let g: PointG2 = unj(&jval(&i.pk)["r_key"]["g_dash"]).unwrap();
    let gamma: GroupOrderElement = unj(&jval(&priv_)["gamma"]).unwrap();
    let mut p = GroupOrderElement::from_bytes(&[1]).unwrap();
    let mut want = PointG2::new_inf().unwrap();
    let mut n = 0;
    for k in 0..=2 * l {
        c.ensure(gen.count() == 2 * l + 1 - k, "tails:count", || format!("count() before tail {} of {}", k, l))?;
        let t = gen.try_next().unwrap();
        c.step();
        let t = match t {
            Some(t) => t,
            None => return violation("tails:missing", format!("tail {} of a registry of {} is missing", k, l)),
        };
        n += 1;
        let w = g.mul(&p).unwrap();
        c.ensure(t == w, "tails:value", || format!("tail {} of a registry of {}", k, l))?;
        if d && k >= 1 && k <= l {
            want = want.add(&w).unwrap();
        }
        p = p.mul_mod(&gamma).unwrap();
    }
    c.ensure(gen.try_next().unwrap().is_none() && gen.try_next().unwrap().is_none(), "tails:more", || format!("more than {} tails", n))?;
    c.ensure(accum(&reg) == want, "tails:registry", || "the new registry's accumulator".into())?;
    c.outcome("ok");
    Ok(())
}

pub fn build(_t: Tier) -> Check {
    let i = Arc::new(new_issuer(677, &["name"], &["master_secret"], true));
    let a = Arc::new(acc(&i, 3));
    let bigs = crate::large::for_updates(&i, _t);
    let (a1, a2, a3) = (a.clone(), a.clone(), a);
    Check {
        rule: "An execution is one history of registry operations (single revocations and recoveries, bulk updates of any subset) from a new registry of size 3; after it every way to merge its deltas, and every witness made at every point and updated over every segmentation, is compared with the accumulator computed from the private key. A state is the registry's kind and its set of valid indexes.".into(),
        assumptions: vec!["operations are well-formed (what is revoked was valid, what is issued was not), except in the scenario about indexes outside the registry".into()],
        scenarios: vec![
            Scenario::new("history", "all histories of up to 4 (5) operations out of 9, both kinds of registry; all segmentations; all indexes", move |c| history(&a1, c)),
            Scenario::new("faults", "all pairs of operations; the tails fail at each access", move |c| faults(&a2, c)),
            Scenario::new("ranges", "7 indexes outside the registry x 7 operations x 3 valid indexes", move |c| ranges(&a3, c)),
            Scenario::new("tails", "registries of size 1, 2, 3, 5, 140", move |c| tails(&i, c)),
            Scenario::new("large", "registries of 300 to 2^31-1: 2 (3) updates of 5 sets of indexes around 2^7, 2^8, 2^15, 2^16, 2^24, 2^30", move |c| crate::large::updates(&bigs, c)),
        ],
    }
}
