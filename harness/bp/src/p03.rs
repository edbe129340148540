//! P03: the statements that the gadgets prove: bounds, non-zero, set membership and its opposite.
use crate::util::*;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::{bit::bit_gadget, non_zero::is_nonzero_gadget, positive_no::positive_no_gadget, vector_sum::vector_sum_constraints};
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, Verifier};
use mc::*;
use merlin::Transcript;
use rand::rngs::OsRng;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind { Bit, Positive(usize), Bound(u64, u64, usize), NonZero, Member(Vec<i64>), Alt(Vec<u64>), Non(Vec<i64>) }
use Kind::*;

/// A number of 64 bits (the wrapper's own conversion is for less).
fn fu(x: u64) -> F { F::from(x >> 32) * &F::from(1u64 << 32) + &F::from(x & 0xffff_ffff) }
fn fs(v: &[i64]) -> Vec<F> { v.iter().map(|x| f(*x)).collect() }
fn int(x: &F) -> Option<u64> { (0..20u64).find(|i| F::from(*i) == *x) }
/// Whether the statement about the value holds.
fn holds(k: &Kind, v: &F) -> bool {
    match k {
        Bit => v.is_zero() || v.is_one(),
        Positive(n) => int(v).map_or(false, |x| x < 1 << n),
        Bound(lo, hi, n) => int(v).map_or(false, |x| *lo <= x && x <= *hi && x - lo < 1 << n && hi - x < 1 << n),
        NonZero => !v.is_zero(),
        Member(s) => fs(s).contains(v),
        Alt(s) => s.iter().any(|x| F::from(*x) == *v),
        Non(s) => !fs(s).contains(v),
    }
}
/// The values to be committed for a value, as the statement defines them.
fn committed(k: &Kind, v: &F) -> Vec<F> {
    let inv = |x: &F| if x.is_zero() { f(0) } else { x.inverse() };
    match k {
        Bit | Positive(_) => vec![v.clone()],
        Bound(lo, hi, _) => vec![v.clone(), v - &fu(*lo), &fu(*hi) - v],
        NonZero => vec![v.clone(), inv(v)],
        Member(s) => std::iter::once(v.clone()).chain(fs(s).iter().map(|x| x - v)).collect(),
        Alt(s) => s.iter().map(|x| if F::from(*x) == *v { f(1) } else { f(0) }).chain(std::iter::once(v.clone())).collect(),
        Non(s) => {
            let mut out = vec![v.clone()];
            for x in fs(s) { out.push(&x - v); out.push(inv(&(&x - v))) }
            out
        }
    }
}
fn position(k: &Kind) -> usize { if let Alt(s) = k { s.len() } else { 0 } }
/// The circuit over given committed values.
fn circuit<B: Builder>(b: &mut B, k: &Kind, vals: &[F]) -> Result<(), R1CSError> {
    match k {
        Bit => { let q = b.put(vals[0].clone()); bit_gadget(b, &q) }
        Positive(n) => { let q = b.put(vals[0].clone()); positive_no_gadget(b, q, *n) }
        Bound(lo, hi, n) => {
            let q: Vec<AllocatedQuantity> = vals.iter().map(|v| b.put(v.clone())).collect();
            bound_check_gadget(b, q[0].clone(), q[1].clone(), q[2].clone(), *hi, *lo, *n)
        }
        NonZero => {
            let q: Vec<AllocatedQuantity> = vals.iter().map(|v| b.put(v.clone())).collect();
            is_nonzero_gadget(b, q[0].variable, q[1].variable)
        }
        Member(s) => {
            let q: Vec<_> = vals.iter().map(|v| b.put(v.clone()).variable).collect();
            set_membership_gadget(b, q[0], q[1..].to_vec(), &fs(s))
        }
        Alt(s) => {
            let mut q = vec![];
            for v in &vals[..s.len()] {
                let x = b.put(v.clone());
                bit_gadget(b, &x)?;
                q.push(x);
            }
            vector_sum_constraints(b, q.iter().map(|x| x.variable).collect(), 1);
            let v = b.put(vals[s.len()].clone());
            vector_product_gadget(b, s, &q, &v)
        }
        Non(s) => {
            let q: Vec<_> = vals.iter().map(|v| b.put(v.clone()).variable).collect();
            let d = (0..s.len()).map(|i| q[1 + 2 * i]).collect();
            let i = (0..s.len()).map(|i| q[2 + 2 * i]).collect();
            set_non_membership_gadget(b, q[0], d, i, &fs(s))
        }
    }
}
fn forge(k: &Kind, vals: &[F], free: &[F]) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let ge = gens(128);
    let mut t = Transcript::new(b"gadget");
    let mut b = Cheat::new(Prover::new(&ge.g, &ge.h, &mut t), free.to_vec());
    circuit(&mut b, k, vals)?;
    Ok((b.p.prove(&ge.G, &ge.H)?, b.coms))
}
/// The library's own verification.
fn check(k: &Kind, proof: &R1CSProof, coms: &[G1]) -> Result<(), R1CSError> {
    let ge = gens(128);
    let (p, c) = (proof.clone(), coms.to_vec());
    let (l, g, h, G, H) = (b"gadget", &ge.g, &ge.h, &ge.G, &ge.H);
    match k {
        Bit | Positive(_) => {
            let mut t = Transcript::new(l);
            let mut ve = Verifier::new(&mut t);
            let q = AllocatedQuantity { variable: ve.commit(coms[0].clone()), assignment: None };
            match k { Positive(n) => positive_no_gadget(&mut ve, q, *n)?, _ => bit_gadget(&mut ve, &q)? }
            ve.verify(proof, g, h, G, H)
        }
        Bound(lo, hi, n) => verify_proof_of_bounded_num(*lo, *hi, *n, p, c, l, g, h, G, H),
        NonZero => verify_proof_of_non_zero_val(p, c, l, g, h, G, H),
        Member(s) => verify_proof_of_set_membership(&fs(s), p, c, l, g, h, G, H),
        Alt(s) => verify_proof_of_set_membership_alt(s, p, c, l, g, h, G, H),
        Non(s) => verify_proof_of_set_non_membership(&fs(s), p, c, l, g, h, G, H),
    }
}
/// The library's own proof.
fn prove(k: &Kind, v: u64, fe: &F, blinding: bool) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let ge = gens(128);
    let (l, g, h, G, H) = (b"gadget", &ge.g, &ge.h, &ge.G, &ge.H);
    let r = if blinding { Some(f(55)) } else { None };
    let mut rng = OsRng;
    let rng = if blinding { None } else { Some(&mut rng) };
    match k {
        Bit | Positive(_) => forge(k, &[fe.clone()], &[]),
        Bound(lo, hi, n) => gen_proof_of_bounded_num(v, r, *lo, *hi, *n, rng, l, g, h, G, H),
        NonZero => gen_proof_of_non_zero_val(fe.clone(), r, rng, l, g, h, G, H),
        Member(s) => gen_proof_of_set_membership(fe.clone(), r, &fs(s), rng, l, g, h, G, H),
        Alt(s) => gen_proof_of_set_membership_alt(v, r, s, rng, l, g, h, G, H),
        Non(s) => gen_proof_of_set_non_membership(fe.clone(), r, &fs(s), rng, l, g, h, G, H),
    }
}
fn tag(k: &Kind) -> &'static str {
    match k { Bit => "bit", Positive(_) => "positive", Bound(..) => "bound", NonZero => "non-zero", Member(_) => "member", Alt(_) => "member-alt", Non(_) => "non-member" }
}
fn kinds(thorough: bool) -> Vec<Kind> {
    let mut k = vec![Bit, Positive(0), Positive(1), Positive(2), Positive(3), Bound(1, 2, 1), Bound(2, 2, 1), Bound(0, 2, 1), Bound(1, 4, 2), NonZero, Member(vec![]), Member(vec![2]), Member(vec![0]), Member(vec![1, 3]), Member(vec![2, 2]), Member(vec![1, 2, 3]), Alt(vec![]), Alt(vec![2]), Alt(vec![0]), Alt(vec![1, 3]), Alt(vec![0, 2]), Non(vec![]), Non(vec![2]), Non(vec![0, 3]), Non(vec![1, 1])];
    if thorough { k.extend(vec![Positive(4), Bound(0, 7, 3), Bound(3, 5, 2), Bound(5, 3, 2), Member(vec![0, 1, 2]), Alt(vec![1, 2, 3]), Alt(vec![2, 2]), Non(vec![1, 2, 3])]) }
    k
}
fn domain(k: &Kind) -> Vec<F> {
    let mut d = fs(&[0, 1, 2, 3, -1]);
    match k {
        NonZero => d.extend(vec![f(2).inverse(), f(3).inverse(), f(4)]),
        Non(s) if s.len() < 2 => d.extend(vec![f(2).inverse(), f(-2), f(-2).inverse()]),
        Bit | Positive(_) => d.extend(vec![f(2).inverse(), f(4), f(7), f(8), f(9)]),
        Bound(..) => d.extend(vec![f(4), f(-2)]),
        _ => {}
    }
    d
}
/// Every assignment of the values a prover is free to choose.
fn witness(c: &mut Ctx) -> R {
    let k = c.pick("gadget", &kinds(c.thorough()));
    let dom = domain(&k);
    let at = position(&k);
    let v = dom[c.choose("value", dom.len())].clone();
    let mut vals = committed(&k, &v);
    let mut lies = 0;
    for i in 0..vals.len() {
        if i == at { continue }
        // what a prover commits besides the value
        let others: Vec<F> = dom.iter().filter(|d| **d != vals[i]).cloned().collect();
        let j = c.choose("committed", others.len() + 1);
        if j > 0 { vals[i] = others[j - 1].clone(); lies += 1 }
    }
    let t = c.thorough();
    let mut m = Model::new(Some(&mut *c), dom.clone());
    let r = guard(|| circuit(&mut m, &k, &vals));
    let (sat, honest, free) = (m.sat, m.honest, m.free.clone());
    drop(m);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(_)) => return c.ensure(!holds(&k, &v), &format!("{}:circuit", tag(&k)), || format!("{:?} about {} is an error", k, name(&v))),
        Err(p) => return violation(format!("{}:panic", tag(&k)), format!("{:?} about {}: {}", k, name(&v), p)),
    }
    let show = || format!("{:?} about {}: committed {:?}, wires {:?}", k, name(&v), vals.iter().map(name).collect::<Vec<_>>(), free.iter().map(name).collect::<Vec<_>>());
    c.state(&(&k, vals.iter().map(name).collect::<Vec<_>>(), free.iter().map(name).collect::<Vec<_>>()));
    if honest && lies == 0 && holds(&k, &v) && !duplicates(&k) {
        c.ensure(sat, &format!("{}:complete", tag(&k)), || format!("the honest assignment is refused: {}", show()))?;
    }
    c.outcome(if sat { "satisfied" } else { "unsatisfied" });
    if sat && !holds(&k, &v) {
        // shown against the real code as well
        let accepted = matches!(guard(|| forge(&k, &vals, &free).and_then(|(p, cs)| check(&k, &p, &cs))), Ok(Ok(())));
        return violation(format!("{}:sound", tag(&k)), format!("a false statement has a witness ({}): {}", if accepted { "and the library accepts its proof" } else { "though no accepted proof" }, show()));
    }
    // the model and the library agree
    if sat || (honest && lies == 0) || (t && lies + (!honest) as usize <= 1) {
        if !baseline(&k) { return Ok(()) }
        let made = verdict(c, &format!("{}:forge", tag(&k)), &show, || forge(&k, &vals, &free))?;
        match made {
            None => c.ensure(!sat, &format!("{}:conform", tag(&k)), || format!("no proof: {}", show()))?,
            Some((p, cs)) => expect(c, sat, &format!("{}:conform", tag(&k)), &show, || check(&k, &p, &cs))?,
        }
    }
    Ok(())
}
fn model(k: &Kind, vals: &[F], force: Vec<(usize, F)>) -> Result<(bool, Vec<F>), String> {
    let mut m = Model::new(None, vec![]);
    m.force = force;
    match guard(|| circuit(&mut m, k, vals)) {
        Ok(Ok(())) => Ok((m.sat, m.free)),
        Ok(Err(_)) => Ok((false, m.free)),
        Err(p) => Err(p),
    }
}
/// Many bits and large sets: one bit, wire or commitment anywhere is set so that it makes up for a false statement.
fn large(c: &mut Ctx) -> R {
    let set: Vec<i64> = (0..c.q(20, 40)).map(|i| 3 + 7 * i).collect();
    let uset: Vec<u64> = set.iter().map(|x| *x as u64).collect();
    let mut ks = vec![Positive(8), Positive(17), Positive(33), Positive(64), Bound(0, 200, 8), Bound(3, 70000, 17), Bound(1, 1 << 40, 41), Bound(5, u64::max_value(), 64), Bound(7, 262, 16), Member(set.clone()), Alt(uset), Non(set.clone())];
    if c.thorough() { for n in vec![4, 5, 6, 7, 9, 16, 32, 63] { ks.push(Positive(n)) } }
    let k = c.pick("gadget", &ks);
    let two = |n: usize| { let mut x = f(1); for _ in 0..n { x = &x + &x } x };
    // (value, whether the statement about it holds)
    let mut values: Vec<(F, bool)> = vec![];
    match &k {
        Positive(n) => {
            for v in vec![0, 1, 2, 3, 5] { if v < 1 << n.min(&20) { values.push((f(v), true)) } }
            for i in 0..*n { values.push((two(i), true)) }
            values.push((two(*n) - f(1), true));
            values.extend(vec![(two(*n), false), (two(*n) + f(1), false), (two(n + 1), false), (two(*n) + two(n - 1), false), (f(-1), false), (two(200), false), (f(2).inverse(), false)]);
        }
        Bound(lo, hi, _) => {
            for v in vec![*lo, lo + 1, lo + (hi - lo) / 2, hi - 1, *hi] { values.push((fu(v), true)) }
            values.extend(vec![(fu(*lo) - f(1), false), (fu(*hi) + f(1), false), (f(-1), false), (fu(*hi) + two(64), false), (two(100), false)]);
        }
        Member(s) | Non(s) => {
            let non = if let Non(_) = k { true } else { false };
            for x in s { values.push((f(*x), !non)) }
            for v in vec![0, 4, -3, 1] { values.push((f(v), non)) }
        }
        Alt(s) => {
            for x in s { values.push((fu(*x), true)) }
            for v in vec![0, 4, -3, 1, 13] { values.push((f(v), false)) }
        }
        _ => return Ok(()),
    }
    let (v, ok) = c.pick("value", &values);
    let vals = committed(&k, &v);
    let t = tag(&k);
    let short = format!("{} of {}", t, match &k { Positive(n) => format!("{} bits", n), Bound(a, b, n) => format!("[{}, {}] in {} bits", a, b, n), Member(s) | Non(s) => format!("{} elements", s.len()), Alt(s) => format!("{} elements", s.len()), _ => String::new() });
    c.state(&(&k, name(&v)));
    let (sat, free) = match model(&k, &vals, vec![]) { Ok(x) => x, Err(p) => return violation(format!("{}:panic", t), format!("{} about {}: {}", short, name(&v), p)) };
    c.step();
    c.outcome(if sat { "satisfied" } else { "unsatisfied" });
    c.ensure(sat == ok, &format!("{}:large", t), || format!("{} about {}: the honest assignment is {}", short, name(&v), if sat { "accepted" } else { "refused" }))?;
    if ok { return Ok(()) }
    // a lie: other committed values, other wires
    let mut lies: Vec<(Vec<F>, Vec<(usize, F)>)> = vec![];
    let bits = |lies: &mut Vec<(Vec<F>, Vec<(usize, F)>)>, vals: &Vec<F>, free: &Vec<F>, target: &F, from: usize, n: usize| {
        let mut sum = f(0);
        for i in 0..n { sum = sum + &free[from + 2 * i + 1] * &two(i) }
        let missing = target - &sum;
        for i in 0..n {
            let b = &free[from + 2 * i + 1] + &(&missing * &two(i).inverse());
            for a in vec![f(1) - &b, f(0), f(1), b.inverse(), free[from + 2 * i].clone()] { lies.push((vals.clone(), vec![(from + 2 * i, a), (from + 2 * i + 1, b.clone())])) }
        }
    };
    match &k {
        Positive(n) => bits(&mut lies, &vals, &free, &v, 0, *n),
        Bound(lo, hi, n) => {
            // one of the differences is as it should be, or both, or their sum, or what is in range
            let (a, b) = (&v - &fu(*lo), &fu(*hi) - &v);
            for (x, y) in vec![(a.clone(), b.clone()), (a.clone(), fu(hi - lo) - &a), (f(0), b.clone()), (a.clone(), f(0)), (fu(hi - lo), f(0)), (f(0), fu(hi - lo)), (a.negation(), b.clone()), (a, b.negation())] {
                let vals = vec![v.clone(), x.clone(), y.clone()];
                let free = match model(&k, &vals, vec![]) { Ok((sat, free)) => { if sat { lies.push((vals.clone(), vec![])) } free } Err(p) => return violation("bound:panic", p) };
                bits(&mut lies, &vals, &free, &x, 0, *n);
                bits(&mut lies, &vals, &free, &y, 2 * n, *n);
                lies.push((vals, vec![]));
            }
        }
        Member(s) => for i in 0..s.len() { for x in vec![f(0), f(1), f(s[i]), vals[i + 1].negation()] { let mut w = vals.clone(); w[i + 1] = x; lies.push((w, vec![])) } }
        Non(s) => for i in 0..s.len() {
            for (d, e) in vec![(f(1), f(1)), (vals[1 + 2 * i].clone(), f(1)), (vals[1 + 2 * i].clone(), f(0)), (f(2), f(2).inverse()), (f(-1), f(-1))] { let mut w = vals.clone(); w[1 + 2 * i] = d; w[2 + 2 * i] = e; lies.push((w, vec![])) }
        }
        Alt(s) => {
            for i in 0..s.len() {
                // the toggle that would make the sum right, alone, and with another to make their sum one
                let q = &v * &fu(s[i]).inverse();
                for x in vec![f(1), q.clone(), f(-1), f(2)] {
                    let mut w = vals.clone();
                    w[i] = x.clone();
                    lies.push((w.clone(), vec![]));
                    for j in 0..s.len() { if j != i { let mut u = w.clone(); u[j] = f(1) - &x; lies.push((u, vec![])) } }
                    // the bit's wires say otherwise than the commitment
                    for b in vec![f(0), f(1)] { lies.push((w.clone(), vec![(2 * i, f(1) - &b), (2 * i + 1, b)])) }
                }
                // the last multiplier of each element: its toggle and its item
                let base = 2 * s.len();
                for (b, x) in vec![(f(1), v.clone()), (f(1), fu(s[i])), (f(0), v.clone())] {
                    for j in 0..2 {
                        let mut w = vals.clone();
                        if j == 1 { w[i] = f(1) }
                        lies.push((w, vec![(base + 2 * i, b.clone()), (base + 2 * i + 1, x.clone())]));
                    }
                }
            }
        }
        _ => {}
    }
    for (w, force) in lies {
        c.step();
        let (sat, free) = match model(&k, &w, force) { Ok(x) => x, Err(p) => return violation(format!("{}:panic", t), p) };
        c.ensure(!sat, &format!("{}:sound", t), || {
            let accepted = !matches!(k, Positive(n) if n > 128) && matches!(guard(|| forge(&k, &w, &free).and_then(|(p, cs)| check(&k, &p, &cs))), Ok(Ok(())));
            format!("a false statement ({} about {}) has a witness ({})", short, name(&v), if accepted { "and the library accepts its proof" } else { "though no accepted proof" })
        })?;
    }
    Ok(())
}
/// The library's own proofs with large sets and many bits.
fn large_own(c: &mut Ctx) -> R {
    let n = c.pick("elements", &[5usize, 8, 9, 16, 17, 33][..c.q(5, 6)]);
    let set: Vec<i64> = (0..n as i64).map(|i| 3 + 7 * i).collect();
    let k = c.pick("gadget", &[Member(set.clone()), Alt(set.iter().map(|x| *x as u64).collect()), Non(set.clone())]);
    let at = c.pick("position", &[0, 4, 7, 8, 15, 16, 32]);
    if at > n { return Ok(()) }
    let v = if at == n { 4 } else { set[at] };
    c.state(&(&k, v));
    let (t, ok) = (tag(&k), holds(&k, &f(v)));
    match verdict(c, &format!("{}:own", t), || format!("{} of {} elements", t, n), || prove(&k, v as u64, &f(v), true))? {
        None => c.ensure(!ok, &format!("{}:own", t), || format!("{} about {} of {} elements: no proof", t, v, n)),
        Some((p, cs)) => expect(c, ok, &format!("{}:own", t), || format!("{} about {} of {} elements", t, v, n), || check(&k, &p, &cs)),
    }
}
fn duplicates(k: &Kind) -> bool {
    match k { Alt(s) => (0..s.len()).any(|i| s[..i].contains(&s[i])), _ => false }
}
/// Whether the circuit is laid out as the library's verifier lays it out.
fn baseline(k: &Kind) -> bool {
    static C: Memo<Kind, bool> = Memo::new();
    *C.of(k, || match domain(k).iter().find(|v| holds(k, v)) {
        None => true,
        Some(v) => matches!(guard(|| forge(k, &committed(k, v), &[]).and_then(|(p, c)| check(k, &p, &c))), Ok(Ok(()))),
    })
}
/// The library's own proofs for every value: accepted exactly if the statement holds.
fn own(c: &mut Ctx) -> R {
    let mut ks = kinds(true);
    for lo in 0..5 { for hi in 0..5 { for n in 1..4 { ks.push(Bound(lo, hi, n)) } } }
    ks.push(Member(vec![5, -1, 0, 7]));
    ks.push(Alt(vec![5, 9, 0, 7]));
    ks.push(Non(vec![5, -1, 0, 7]));
    let k = c.pick("gadget", &ks);
    let vs: &[i64] = match k { Bound(..) | Alt(_) => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], _ => &[0, 1, 2, 3, 4, 5, 7, 8, -1, -2] };
    let v = c.pick("value", vs);
    let blinding = c.flag("blinding");
    c.state(&(&k, v, blinding));
    let t = tag(&k);
    let what = || format!("{:?} about {}", k, v);
    let made = verdict(c, &format!("{}:own", t), &what, || prove(&k, v as u64, &f(v), blinding))?;
    let ok = holds(&k, &f(v));
    let (p, cs) = match made {
        None => { c.outcome("no proof"); return c.ensure(!ok || duplicates(&k), &format!("{}:own", t), || format!("{}: no proof", what())) }
        Some(x) => x,
    };
    if duplicates(&k) { return Ok(()) }
    c.outcome(if ok { "accepted" } else { "refused" });
    expect(c, ok, &format!("{}:own", t), &what, || check(&k, &p, &cs))?;
    // altered commitments
    let ge = gens(32);
    for i in 0..cs.len() {
        let mut short = cs.clone();
        short.truncate(i);
        if !matches!(k, Bit | Positive(_)) { expect(c, false, &format!("{}:short", t), || format!("{}: {} commitments", what(), i), || check(&k, &p, &short))? }
        for d in vec![ge.g.clone(), ge.h.clone()] {
            let mut x = cs.clone();
            x[i] = x[i].clone() + d;
            expect(c, false, &format!("{}:commitment", t), || format!("{}: commitment {} altered", what(), i), || check(&k, &p, &x))?;
        }
    }
    // as a proof of every other statement of the kind
    for o in &ks {
        if tag(o) != t || o == &k { continue }
        if let (Positive(_), _) | (Bit, _) = (&k, o) { continue }
        expect(c, false, &format!("{}:other", t), || format!("{} taken for {:?}", what(), o), || check(o, &p, &cs))?;
    }
    Ok(())
}
/// Bounds at the edges of 64-bit numbers.
fn wide(c: &mut Ctx) -> R {
    const M: u64 = u64::max_value();
    let all = [0, 1 << 63, M, (1 << 63) - 1, 1 << 58, (1 << 58) - 1, 1, M - 1];
    let e = &all[..c.q(5, 8)];
    let (lo, hi, v) = (c.pick("lower", e), c.pick("upper", e), c.pick("value", e));
    let n = c.pick("bits", &[64usize, 1, 63, 59][..c.q(2, 4)]);
    c.state(&(lo, hi, v, n));
    let ge = gens(128);
    let mut rng = OsRng;
    let ok = lo <= v && v <= hi && (n == 64 || (v - lo < 1 << n && hi - v < 1 << n));
    let what = || format!("{} in [{}, {}] with {} bits", v, lo, hi, n);
    let made = verdict(c, "bound:wide", &what, || gen_proof_of_bounded_num(v, None, lo, hi, n, Some(&mut rng), b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
    match made {
        None => c.ensure(!ok, "bound:wide", || format!("{}: no proof", what()))?,
        Some((p, cs)) => expect(c, ok, "bound:wide", &what, || verify_proof_of_bounded_num(lo, hi, n, p.clone(), cs.clone(), b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?,
    }
    if n == 64 {
        let set = if lo == hi { vec![lo] } else { vec![lo, hi] };
        let what = || format!("{} in {:?}", v, set);
        let made = verdict(c, "alt:wide", &what, || gen_proof_of_set_membership_alt(v, None, &set, Some(&mut rng), b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
        match made {
            None => c.ensure(!set.contains(&v), "alt:wide", || format!("{}: no proof", what()))?,
            Some((p, cs)) => expect(c, set.contains(&v), "alt:wide", &what, || verify_proof_of_set_membership_alt(&set, p.clone(), cs.clone(), b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?,
        }
    }
    if lo == v && hi == v {
        // with neither a blinding nor a source of randomness
        expect(c, false, "norandom", || "no blinding".into(), || gen_proof_of_bounded_num::<OsRng>(v, None, lo, hi, n, None, b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
        expect(c, false, "norandom", || "no blinding".into(), || gen_proof_of_non_zero_val::<OsRng>(f(1), None, None, b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
        expect(c, false, "norandom", || "no blinding".into(), || gen_proof_of_set_membership::<OsRng>(f(1), None, &fs(&[1]), None, b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
        expect(c, false, "norandom", || "no blinding".into(), || gen_proof_of_set_membership_alt::<OsRng>(1, None, &[1], None, b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
        expect(c, false, "norandom", || "no blinding".into(), || gen_proof_of_set_non_membership::<OsRng>(f(1), None, &fs(&[2]), None, b"gadget", &ge.g, &ge.h, &ge.G, &ge.H))?;
    }
    Ok(())
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one gadget with one value and one choice of all that a prover is free to choose (what it commits besides the value, and every free wire), evaluated constraint by constraint by a model that runs the gadget's own code, or one proof of the library. A state is one complete assignment, a transition one proof or verification. A satisfying assignment exists exactly if the statement holds; each is replayed through the library's prover and verifier.".into(),
        assumptions: vec!["the prover's choices are taken from 5 to 10 edge values of the field".into(), "group arithmetic is amcl_wrapper's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("witness", "25 (33) gadgets with sets of up to 3 and 0..3 (4) bits x all values x all assignments over the edge values", witness),
            Scenario::new("large", "12 (20) gadgets of up to 64 bits and 20 (40) elements x all values x each bit, wire, pair of toggles or commitment chosen to make up for a false statement", large),
            Scenario::new("large-own", "sets of 5 to 17 (33) elements x 3 gadgets x 7 positions", large_own),
            Scenario::new("own", "111 gadgets x 10 values x 2; each commitment altered or missing, each other statement", own),
            Scenario::new("wide", "5^3 (8^3) edges of 64 bits x 2 (4) bit lengths; sets of such numbers", wide),
        ],
    }
}
