//! P02: the proof system for constraint systems: a proof is accepted exactly if the witness satisfies them.
use crate::util::*;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier};
use mc::jsonmut::*;
use mc::*;
use merlin::Transcript;
use std::sync::{Arc, Mutex};

/// Terms over the variables so far (0 is the last one, 1 the first) and a constant.
#[derive(Clone, Debug, Hash)]
struct Lc(Vec<(usize, i64)>, i64);
#[derive(Clone, Debug, Hash)]
enum Op {
    Mul(Lc, Lc),
    Pair(i64, i64),
    Single(i64),
    /// The combination, and what is added to the value that it has.
    Zero(Lc, i64),
}
#[derive(Clone, Debug, Hash, Default)]
struct Prog { com: Vec<i64>, first: Vec<Op>, second: Vec<Op>, two: bool }

/// The variables of a run, the values of which are known to who plans it.
#[derive(Clone)]
struct Vars { vars: Vec<Variable>, vals: Vec<F> }
impl Vars {
    fn at(&self, i: usize) -> Option<usize> {
        if self.vars.is_empty() { None } else if i == 0 { Some(self.vars.len() - 1) } else { Some((i - 1).min(self.vars.len() - 1)) }
    }
    fn lc(&self, l: &Lc) -> LinearCombination {
        let mut t = vec![(Variable::One(), f(l.1))];
        for (i, k) in &l.0 { if let Some(i) = self.at(*i) { t.push((self.vars[i], f(*k))) } }
        t.iter().collect()
    }
    fn val(&self, l: &Lc) -> F {
        let mut s = f(l.1);
        for (i, k) in &l.0 { if let Some(i) = self.at(*i) { s = s + &self.vals[i] * &f(*k) } }
        s
    }
    fn push(&mut self, v: Variable, x: F) { self.vars.push(v); self.vals.push(x) }
}
fn ops<CS: ConstraintSystem>(cs: &mut CS, ops: &[Op], v: &mut Vars, know: bool, scale: &F) -> Result<(), R1CSError> {
    let mut pending: Option<(Variable, F)> = None;
    for op in ops {
        match op {
            Op::Mul(a, b) => {
                let (x, y) = (v.val(a), v.val(b));
                let (l, r, o) = cs.multiply(v.lc(a), v.lc(b));
                v.push(l, x.clone());
                v.push(r, y.clone());
                v.push(o, x * y);
            }
            Op::Pair(a, b) => {
                let (l, r, o) = cs.allocate_multiplier(if know { Some((f(*a), f(*b))) } else { None })?;
                v.push(l, f(*a));
                v.push(r, f(*b));
                v.push(o, f(*a) * f(*b));
            }
            Op::Single(a) => {
                let (x, o) = cs.allocate_single(if know { Some(f(*a)) } else { None })?;
                v.push(x, f(*a));
                match o {
                    Some(o) => {
                        let l = pending.take().map(|p| p.1).unwrap_or_else(|| f(0));
                        v.push(o, l * f(*a));
                    }
                    None => pending = Some((x, f(*a))),
                }
            }
            Op::Zero(l, off) => {
                let value = v.val(l) + f(*off);
                let lc = scaled(v.lc(l) - LinearCombination::from(value), scale);
                cs.constrain(lc);
            }
        }
    }
    Ok(())
}
fn run<CS: ConstraintSystem>(cs: &mut CS, p: &Prog, com: Vec<Variable>, know: bool) -> Result<(), R1CSError> {
    let mut v = Vars { vals: p.com.iter().map(|x| f(*x)).collect(), vars: com };
    ops(cs, &p.first, &mut v, know, &f(1))?;
    if p.two {
        let (second, base) = (p.second.clone(), v.clone());
        cs.specify_randomized_constraints(move |cs| {
            let mut v = base.clone();
            let ch = cs.challenge_scalar(b"challenge");
            ops(cs, &second, &mut v, know, &ch)
        })?;
    }
    Ok(())
}
fn satisfied(p: &Prog) -> bool {
    p.first.iter().chain(if p.two { p.second.iter() } else { [].iter() }).all(|o| match o { Op::Zero(_, off) => *off == 0, _ => true })
}
const LABEL: &[u8] = b"circuit";
struct World { g: G1, h: G1, G: G1Vector, H: G1Vector, label: &'static [u8] }
fn world(n: usize) -> World {
    let ge = gens(if n > 32 { 128 } else { 32 });
    World { g: ge.g.clone(), h: ge.h.clone(), G: ge.G.as_slice()[..n].to_vec().into(), H: ge.H.as_slice()[..n].to_vec().into(), label: LABEL }
}
fn prove(w: &World, p: &Prog) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut t = Transcript::new(w.label);
    let mut pr = Prover::new(&w.g, &w.h, &mut t);
    let (mut coms, mut vars) = (vec![], vec![]);
    for (i, x) in p.com.iter().enumerate() {
        let (c, v) = pr.commit(f(*x), f(100 + i as i64));
        coms.push(c);
        vars.push(v);
    }
    run(&mut pr, p, vars, true)?;
    Ok((pr.prove(&w.G, &w.H)?, coms))
}
fn verify(w: &World, p: &Prog, coms: &[G1], proof: &R1CSProof) -> Result<(), R1CSError> {
    let mut t = Transcript::new(w.label);
    let mut ve = Verifier::new(&mut t);
    let mut vars: Vec<Variable> = coms.iter().map(|c| ve.commit(c.clone())).collect();
    vars.truncate(p.com.len());
    run(&mut ve, p, vars, false)?;
    ve.verify(proof, &w.g, &w.h, &w.G, &w.H)
}
fn some_ops(c: &mut Ctx, name: &str, max: usize, lie: &mut bool) -> Vec<Op> {
    let mut out = vec![];
    while out.len() < max {
        let n = if *lie { 6 } else { 7 };
        let op = match c.choose(name, n) {
            0 => break,
            1 => Op::Mul(Lc(vec![(0, 1)], 0), Lc(vec![(1, 2)], -1)),
            2 => Op::Mul(Lc(vec![(0, 1), (1, -1)], 0), Lc(vec![(0, 3)], 2)),
            3 => Op::Pair(2, -3),
            4 => Op::Single(5),
            5 => Op::Zero(Lc(vec![(0, 1), (1, 2)], 1), 0),
            _ => { *lie = true; Op::Zero(Lc(vec![(0, 1)], 0), 1) }
        };
        out.push(op);
    }
    out
}
fn circuits(c: &mut Ctx) -> R {
    let com = c.pick("committed", &[vec![3], vec![], vec![0, 4], vec![0], vec![-1, 1]][..c.q(3, 5)]);
    let mut lie = false;
    let max = c.q(3, 4);
    let first = some_ops(c, "op", max, &mut lie);
    let two = c.flag("two phases");
    let second = if two { some_ops(c, "second op", max - first.len(), &mut lie) } else { vec![] };
    let p = Prog { com, first, second, two };
    c.state(&p);
    one(c, &p, 16)
}
/// One program: the proof is made, and accepted exactly if the witness satisfies the constraints.
fn one(c: &mut Ctx, p: &Prog, n: usize) -> R {
    let sat = satisfied(p);
    // the plan's own verdict agrees with an evaluation of the constraints
    let mut m = Model::new(None, vec![]);
    let vars = p.com.iter().map(|x| m.commit(f(*x))).collect();
    let ok = run(&mut m, p, vars, true).and_then(|_| m.second()).map(|m| m.sat);
    if let Ok(ok) = ok { c.ensure(ok == sat, "model", || format!("{:?}", p))? }
    let w = world(n);
    let what = || format!("{:?}", p);
    match verdict(c, "prove", &what, || prove(&w, p))? {
        None => c.ensure(!sat, "prove:refused", || format!("no proof for {:?}", p)),
        Some((proof, coms)) => {
            c.outcome(if sat { "accepted" } else { "refused" });
            expect(c, sat, if sat { "complete" } else { "sound" }, &what, || verify(&w, p, &coms, &proof))
        }
    }
}
/// Circuits of every size around the powers of two, in both phases.
fn sizes(c: &mut Ctx) -> R {
    let a = c.choose("first", c.q(10, 18));
    let b = c.choose("second", c.q(6, 10));
    let lie = c.choose("lie", 3);
    let mul = Op::Mul(Lc(vec![(0, 1)], 1), Lc(vec![(1, 1)], 1));
    let mut p = Prog { com: vec![2], first: vec![mul.clone(); a], second: vec![mul; b], two: b > 0 };
    let z = |x| Op::Zero(Lc(vec![(0, 1)], 0), x);
    if lie == 1 { p.first.push(z(1)) } else { p.first.push(z(0)) }
    if b > 0 { p.second.push(z(if lie == 2 { 1 } else { 0 })) } else if lie == 2 { return Ok(()) }
    c.state(&(a, b, lie));
    one(c, &p, 32)?;
    // too few generators are an error for both
    let n = a + b;
    let need = n.next_power_of_two();
    let w = world(32);
    let (proof, coms) = match prove(&w, &p) { Ok(x) => x, Err(_) => return violation("sizes", "no proof") };
    for (i, (x, y)) in [(need, need), (need - 1, need), (need, need - 1), (need - 1, need - 1), (0, 0), (need, 0), (0, need), (n.saturating_sub(1), need), (a.saturating_sub(1), need)].iter().enumerate() {
        let (gs, hs) = (world(32).G.as_slice()[..*x].to_vec(), world(32).H.as_slice()[..*y].to_vec());
        let w = World { G: gs.into(), H: hs.into(), ..world(32) };
        let enough = *x >= need && *y >= need;
        let what = || format!("{} and {} generators for {} multipliers ({})", x, y, n, i);
        let q = verdict(c, "generators:prove", &what, || prove(&w, &p))?;
        c.ensure(q.is_some() == enough, "generators:prove", &what)?;
        expect(c, enough && lie == 0, "generators:verify", &what, || verify(&w, &p, &coms, &proof))?;
    }
    Ok(())
}
/// Many of everything: constraints, terms, commitments, multipliers; the only one that does not hold may be any.
fn many(c: &mut Ctx) -> R {
    let kind = c.choose("kind", 6);
    let n = c.pick("number", &[16, 17, 33, 65, 129, 257, 600, 1025, 4097][..c.q(8, 9)]);
    let bad = c.choose("violated", 4);
    let z = |at: usize, lie: bool| Op::Zero(Lc(vec![(at, 1), (1, 2)], 1), lie as i64);
    let which = |i: usize| match bad { 0 => false, 1 => i == 0, 2 => i == n / 2, _ => i == n - 1 };
    let small = n.min(c.q(65, 129));
    let p = match kind {
        // constraints of the first and second phase
        0 => Prog { com: vec![3, 4], first: (0..n).map(|i| z(i % 3, which(i))).collect(), second: vec![], two: false },
        1 => Prog { com: vec![3, 4], first: vec![], second: (0..n).map(|i| z(i % 3, which(i))).collect(), two: true },
        // one constraint of many terms
        2 => Prog { com: (0..small as i64).collect(), first: vec![Op::Zero(Lc((1..=small).map(|i| (i, i as i64)).collect(), 7), (bad > 0) as i64)], second: vec![], two: false },
        // commitments, each in a constraint of its own
        3 => { let f = |i: usize| match bad { 0 => false, 1 => i == 0, 2 => i == small / 2, _ => i == small - 1 }; Prog { com: (0..small as i64).collect(), first: (0..small).map(|i| Op::Zero(Lc(vec![(i + 1, 1)], 0), f(i) as i64)).collect(), second: vec![], two: false } }
        // multipliers in both phases, each output in a constraint of its own
        _ => {
            let small = small.min(c.q(33, 65));
            let f = |i: usize| match bad { 0 => false, 1 => i == 0, 2 => i == small / 2, _ => i == small - 1 };
            let l: Vec<Op> = (0..small).flat_map(|i| vec![Op::Pair(i as i64, 3), Op::Zero(Lc(vec![(0, 1)], 0), f(i) as i64)]).collect();
            if kind == 4 { Prog { com: vec![3], first: l, second: vec![], two: false } } else { Prog { com: vec![3], first: vec![Op::Pair(1, 1)], second: l, two: true } }
        }
    };
    if kind > 1 && n > small { return Ok(()) }
    c.state(&(kind, n, bad));
    one(c, &p, 128)
}
fn samples() -> Vec<Prog> {
    let mul = Op::Mul(Lc(vec![(0, 1)], 1), Lc(vec![(1, 1)], 1));
    let z = Op::Zero(Lc(vec![(0, 1), (1, 1)], 0), 0);
    let mk = |com: &[i64], first: Vec<Op>, second: Vec<Op>| Prog { com: com.to_vec(), first, two: !second.is_empty(), second };
    vec![
        mk(&[3], vec![mul.clone(), z.clone()], vec![]),
        mk(&[3, 4], vec![mul.clone(), mul.clone(), z.clone(), mul.clone(), z.clone()], vec![]),
        mk(&[3, 4], vec![mul.clone(), z.clone()], vec![mul.clone(), z.clone()]),
        mk(&[3, 5, 6], vec![Op::Single(5), Op::Single(6), z.clone(), Op::Pair(2, 7)], vec![z.clone()]),
        mk(&[3], vec![z.clone()], vec![mul.clone(), mul.clone(), mul.clone(), z.clone()]),
        mk(&[3, 8], vec![z.clone()], vec![]),
        mk(&[], vec![mul.clone(), mul, z], vec![]),
    ]
}
fn alter(c: &mut Ctx) -> R {
    let i = c.choose("circuit", samples().len());
    let p = samples()[i].clone();
    let w = world(8);
    let (proof, coms) = match prove(&w, &p) { Ok(x) => x, Err(_) => return violation("alter", "no proof") };
    expect(c, true, "alter", || "unchanged".into(), || verify(&w, &p, &coms, &proof))?;
    let j = serde_json::to_value(&proof).unwrap();
    let back: R1CSProof = match serde_json::from_value(j.clone()) { Ok(b) => b, Err(e) => return violation("json", e.to_string()) };
    expect(c, true, "json", || "the proof read from JSON".into(), || verify(&w, &p, &coms, &back))?;
    let ls = leaves(&j);
    let l = c.pick("part", &ls);
    c.state(&(i, &l));
    let point = get(&j, &l).as_str().map_or(false, |s| s.contains(' '));
    let mut others = vec![];
    for m in ls.iter().filter(|m| get(&j, m).as_str().map_or(false, |s| s.contains(' ')) == point) { others.push(get(&j, m).clone()) }
    if point {
        let x: G1 = serde_json::from_value(get(&j, &l).clone()).unwrap();
        for y in vec![G1::identity(), w.g.clone(), w.h.clone(), x.negation(), x.clone() + w.h.clone(), x.clone() + w.g.clone(), x + w.G[0].clone()] { others.push(serde_json::to_value(&y).unwrap()) }
    } else {
        let x: F = serde_json::from_value(get(&j, &l).clone()).unwrap();
        for y in vec![f(0), f(1), x.negation(), x.clone() + f(1), x.inverse()] { others.push(serde_json::to_value(&y).unwrap()) }
    }
    for o in others {
        if same_value(&o, get(&j, &l), point) { continue }
        let k = with(&j, &l, o.clone());
        let q: R1CSProof = serde_json::from_value(k).unwrap();
        expect(c, false, "alter", || format!("{} replaced by {}", l, short(&o.to_string())), || verify(&w, &p, &coms, &q))?;
    }
    Ok(())
}
fn same_value(a: &Value, b: &Value, point: bool) -> bool {
    if point {
        let (x, y): (G1, G1) = (serde_json::from_value(a.clone()).unwrap(), serde_json::from_value(b.clone()).unwrap());
        x == y
    } else {
        let (x, y): (F, F) = (serde_json::from_value(a.clone()).unwrap(), serde_json::from_value(b.clone()).unwrap());
        x == y
    }
}
fn swap<T: Clone>(v: &[T]) -> Vec<(String, Vec<T>)> {
    let mut out = vec![];
    for i in 0..v.len() {
        for j in 0..i { let mut x = v.to_vec(); x.swap(i, j); out.push((format!("{} and {} exchanged", i, j), x)) }
        let mut x = v.to_vec(); x.remove(i); out.push((format!("{} dropped", i), x));
        let mut x = v.to_vec(); let e = x[i].clone(); x.insert(i, e); out.push((format!("{} doubled", i), x));
    }
    out
}
/// Everything around the proof: commitments, generators, labels, the circuit, and the lists in the proof.
fn around(c: &mut Ctx) -> R {
    let i = c.choose("circuit", samples().len());
    let p = samples()[i].clone();
    let w = world(8);
    let (proof, coms) = match prove(&w, &p) { Ok(x) => x, Err(_) => return violation("around", "no proof") };
    let what = c.choose("what", 7);
    c.state(&(i, what));
    match what {
        0 => {
            for k in 0..coms.len() {
                for (j, o) in vec![G1::identity(), w.g.clone(), coms[k].negation(), coms[k].clone() + w.h.clone(), coms[k].clone() + w.g.clone()].into_iter().enumerate() {
                    let mut x = coms.clone();
                    x[k] = o;
                    expect(c, false, "commitment", || format!("commitment {} replaced ({})", k, j), || verify(&w, &p, &x, &proof))?;
                }
            }
            for (n, x) in swap(&coms) {
                if n.contains("exchanged") {
                    expect(c, false, "commitment", || format!("commitments {}", n), || verify(&w, &p, &x, &proof))?;
                }
            }
            // a commitment that no constraint uses is bound all the same
            let mut x = coms.clone();
            x.push(w.g.clone());
            expect(c, false, "commitment", || "a commitment more".into(), || verify(&w, &p, &x, &proof))?;
        }
        1 => {
            for (n, x) in vec![("another g", World { g: w.h.clone(), ..world(8) }), ("another h", World { h: w.g.clone(), ..world(8) }), ("another label", World { label: b"other", ..world(8) }), ("g and h exchanged", World { g: w.h.clone(), h: w.g.clone(), ..world(8) }), ("G and H exchanged", World { G: w.H.clone(), H: w.G.clone(), ..world(8) })] {
                let m = p.first.iter().chain(&p.second).filter(|o| match o { Op::Zero(..) => false, _ => true }).count();
                // without multipliers the generators of the vectors count for the padding alone
                if m == 0 && n.starts_with("G and") { continue }
                expect(c, false, "generators", || n.into(), || verify(&x, &p, &coms, &proof))?;
            }
        }
        2 => for k in 0..2 {
            let mut q = p.clone();
            let list = if k == 0 { &mut q.first } else { &mut q.second };
            for j in 0..list.len() {
                let mut r = p.clone();
                let l = if k == 0 { &mut r.first } else { &mut r.second };
                let changed = match &mut l[j] { Op::Zero(_, off) => { *off += 1; true } _ => false };
                if changed { expect(c, false, "circuit", || format!("constraint {} of phase {} changed", j, k), || verify(&w, &r, &coms, &proof))? }
            }
        },
        3 => for list in ["L", "R"].iter() {
            let j = serde_json::to_value(&proof).unwrap();
            let at = format!("/ipp_proof/{}/elems", list);
            let v = match get(&j, &at).as_array() { Some(v) => v.clone(), None => continue };
            let mut alts = swap(&v);
            alts.push(("emptied".into(), vec![]));
            alts.push(("extended".into(), [&v[..], &[serde_json::to_value(&w.g).unwrap()]].concat()));
            for (n, x) in alts {
                if x == v { continue }
                let q: R1CSProof = serde_json::from_value(with(&j, &at, Value::Array(x.clone()))).unwrap();
                expect(c, false, "lists", || format!("{}: {}", list, n), || verify(&w, &p, &coms, &q))?;
                let both = with(&with(&j, "/ipp_proof/L/elems", Value::Array(x.clone())), "/ipp_proof/R/elems", Value::Array(x));
                let q: R1CSProof = serde_json::from_value(both).unwrap();
                expect(c, false, "lists", || format!("both: {}", n), || verify(&w, &p, &coms, &q))?;
            }
        },
        4 => for (k, q) in samples().into_iter().enumerate() {
            if k != i && q.com.len() == p.com.len() { expect(c, false, "circuit", || format!("the proof for circuit {} with circuit {}", i, k), || verify(&w, &q, &coms, &proof))? }
        },
        5 => {
            // two proofs of the same differ in everything that is blinded
            let (other, coms2) = prove(&w, &p).unwrap();
            c.ensure(coms == coms2, "fresh", || "commitments with given blindings differ".into())?;
            let (a, b) = (serde_json::to_value(&proof).unwrap(), serde_json::to_value(&other).unwrap());
            let id = serde_json::to_value(&G1::identity()).unwrap();
            for l in leaves(&a) {
                let x = get(&a, &l);
                let second = l == "/A_I2" || l == "/A_O2" || l == "/S2";
                if x == get(&b, &l) && !(second && same_value(x, &id, true)) && blinded(&p, &l) {
                    return violation("fresh", format!("{} is the same in two proofs", l));
                }
            }
        }
        _ => {
            // a part of the proof of one witness in the proof of another
            let (other, _) = prove(&w, &p).unwrap();
            let (a, b) = (serde_json::to_value(&proof).unwrap(), serde_json::to_value(&other).unwrap());
            for l in leaves(&a) {
                if get(&a, &l) == get(&b, &l) { continue }
                let q: R1CSProof = serde_json::from_value(with(&a, &l, get(&b, &l).clone())).unwrap();
                expect(c, false, "mixed", || format!("{} of another proof", l), || verify(&w, &p, &coms, &q))?;
            }
        }
    }
    Ok(())
}
/// Every challenge depends on all that was fixed before it, exactly: whatever is altered in a part, the last challenge
/// that may still be the same is the one before it.
fn order(c: &mut Ctx) -> R {
    let i = c.choose("circuit", samples().len());
    let p = samples()[i].clone();
    let w = world(8);
    let (proof, coms) = match prove(&w, &p) { Ok(x) => x, Err(_) => return violation("order", "no proof") };
    let drawn = |w: &World, coms: &[G1], q: &R1CSProof| {
        merlin::record();
        let _ = guard(|| verify(w, &p, coms, q));
        merlin::recorded()
    };
    let base = drawn(&w, &coms, &proof);
    let j = serde_json::to_value(&proof).unwrap();
    let rounds = get(&j, "/ipp_proof/L/elems").as_array().unwrap().len();
    // y, z, u, x, w and one for each round are the last ones
    let n = base.len();
    c.ensure(n >= rounds + 5, "order", || format!("{} challenges with {} rounds", n, rounds))?;
    let (y, x, wc) = (n - rounds - 5, n - rounds - 2, n - rounds - 1);
    c.state(&i);
    // at most `last` is the first challenge that changes
    let check = |c: &mut Ctx, what: String, got: Vec<Vec<u8>>, last: usize| {
        c.step();
        let first = (0..n).find(|k| base.get(*k) != got.get(*k));
        c.ensure(first.map_or(false, |k| k <= last), "order", || format!("circuit {}: {}: the first challenge that changes is {:?} instead of {} of {}", i, what, first, last, n))
    };
    for k in 0..coms.len() {
        for (m, o) in points(&w, &coms[k]).into_iter().enumerate() {
            let mut v = coms.clone();
            v[k] = o;
            let got = drawn(&w, &v, &proof);
            check(c, format!("commitment {} altered ({})", k, m), got, 0)?;
        }
    }
    let got = drawn(&World { label: b"other", ..world(8) }, &coms, &proof);
    check(c, "another label".into(), got, 0)?;
    for l in leaves(&j) {
        let at = match l.as_str() {
            "/A_I1" | "/A_O1" | "/S1" => 0,
            "/A_I2" | "/A_O2" | "/S2" => y,
            "/T_1" | "/T_3" | "/T_4" | "/T_5" | "/T_6" => x,
            "/t_x" | "/t_x_blinding" | "/e_blinding" => wc,
            s if s.starts_with("/ipp_proof/L/elems/") || s.starts_with("/ipp_proof/R/elems/") => wc + 1 + s[19..].parse::<usize>().unwrap(),
            // the last two are what the last challenge asks for
            "/ipp_proof/a" | "/ipp_proof/b" => continue,
            s => return violation("order", format!("{} is not known to this check", s)),
        };
        let old = get(&j, &l).clone();
        let others: Vec<Value> = if old.as_str().map_or(false, |s| s.contains(' ')) {
            points(&w, &serde_json::from_value(old.clone()).unwrap()).iter().map(|x| serde_json::to_value(x).unwrap()).collect()
        } else {
            let v: F = serde_json::from_value(old.clone()).unwrap();
            let mut big = f(1);
            for _ in 0..250 { big = &big + &big }
            vec![v.clone() + f(1), v.clone() + big, v.negation()].iter().map(|x| serde_json::to_value(x).unwrap()).collect()
        };
        for (m, o) in others.into_iter().enumerate() {
            if o == old || same_value(&o, &old, old.as_str().map_or(false, |s| s.contains(' '))) { continue }
            let q: R1CSProof = serde_json::from_value(with(&j, &l, o)).unwrap();
            let got = drawn(&w, &coms, &q);
            check(c, format!("{} altered ({})", l, m), got, at)?;
        }
    }
    Ok(())
}
/// Other points than this one, the opposite one among them.
fn points(w: &World, x: &G1) -> Vec<G1> {
    vec![x.negation(), x.clone() + w.g.clone(), x.clone() + w.h.clone(), G1::identity(), w.g.clone()].into_iter().filter(|y| y != x).collect()
}
/// The challenges that circuits may draw are numbers of full length, and depend on all that was fixed before.
fn challenges(c: &mut Ctx) -> R {
    let k = c.choose("commitments", 4);
    let mult = c.choose("multipliers", 4);
    c.state(&(k, mult));
    let w = world(8);
    let seen: Arc<Mutex<Vec<F>>> = Default::default();
    for alt in 0..4 {
        let label: &[u8] = if alt == 3 { b"other" } else { LABEL };
        let mut t = Transcript::new(label);
        let mut pr = Prover::new(&w.g, &w.h, &mut t);
        for i in 0..k + (alt == 1) as usize { pr.commit(f(i as i64), f(if alt == 2 { 200 } else { 100 } + i as i64)); }
        for _ in 0..mult { pr.allocate_multiplier(Some((f(2), f(3)))).unwrap(); }
        let s = seen.clone();
        pr.specify_randomized_constraints(move |cs| {
            let mut v = s.lock().unwrap();
            for _ in 0..4 { v.push(cs.challenge_scalar(b"challenge")) }
            v.push(cs.challenge_scalar(b"another"));
            Ok(())
        }).unwrap();
        let r = verdict(c, "challenges", || "prove".into(), || pr.prove(&w.G, &w.H))?;
        c.ensure(r.is_some(), "challenges", || "no proof".into())?;
    }
    let v = seen.lock().unwrap().clone();
    for (i, x) in v.iter().enumerate() {
        c.ensure(x.to_hex().trim_start_matches('0').len() > 40, "challenges", || format!("a challenge of a few bits: {}", x.to_hex()))?;
        c.ensure(!v[..i].contains(x), "challenges", || format!("challenge {} repeats another", i))?;
    }
    Ok(())
}
/// Without multipliers nothing is in the vectors, which are then padding alone.
fn blinded(p: &Prog, l: &str) -> bool {
    let m = p.first.iter().chain(&p.second).filter(|o| match o { Op::Zero(..) => false, _ => true }).count();
    m > 0 || !(l.starts_with("/ipp_proof") || l == "/t_x")
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one circuit with one witness, proved and verified by the library, and one alteration. A state is one circuit and alteration, a transition one proof or verification. A proof is accepted exactly if the witness satisfies the constraints.".into(),
        assumptions: vec!["group arithmetic is amcl_wrapper's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("circuits", "3 (5) lists of commitments x all programs of up to 3 (4) steps of 6 kinds in two phases, with at most one constraint violated", circuits),
            Scenario::new("sizes", "0..9 (17) and 0..5 (9) multipliers in the phases x honest or not x 9 numbers of generators", sizes),
            Scenario::new("many", "up to 1025 (4097) constraints, up to 65 (129) commitments and terms, up to 33 (65) multipliers, in both phases x none, the first, the middle or the last violated", many),
            Scenario::new("alter", "7 circuits x every part of the proof x every other part and edge values", alter),
            Scenario::new("order", "7 circuits: every commitment, the label and every part of the proof altered in 3 to 5 ways, the challenges drawn by the verifier compared", order),
            Scenario::new("challenges", "0..3 commitments x 0..3 multipliers x 4 statements x 5 challenges", challenges),
            Scenario::new("around", "7 circuits x commitments, generators, labels, constraints, lists, other circuits and proofs", around),
        ],
    }
}
fn scaled(l: LinearCombination, k: &F) -> LinearCombination {
    let t: Vec<(Variable, F)> = l.get_terms().into_iter().map(|(v, x)| (v, x * k.clone())).collect();
    t.iter().collect()
}
