//! P04: the hash functions that circuits use: MiMC and Poseidon, in the clear and as constraints.
use crate::util::*;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_constants::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{LinearCombination, Prover, R1CSProof};
use mc::*;
use merlin::Transcript;
use rand::rngs::OsRng;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum S { Cube, Inverse, Quint }
impl S {
    fn lib(&self) -> SboxType { match self { S::Cube => SboxType::Cube, S::Inverse => SboxType::Inverse, S::Quint => SboxType::Quint } }
    /// None: the inverse of zero, which this S-box does not define.
    fn apply(&self, x: &F) -> Option<F> {
        let mut y = f(1);
        match self {
            S::Cube => for _ in 0..3 { y = y * x },
            S::Quint => for _ in 0..5 { y = y * x },
            S::Inverse => { if x.is_zero() { return None } y = x.inverse() }
        }
        Some(y)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind { Mimc(usize), Pos(usize, usize, usize, usize, S) }
use Kind::*;
impl Kind {
    fn arity(&self) -> usize { match self { Mimc(_) => 2, Pos(n, ..) => *n } }
    fn tag(&self) -> String {
        match self { Mimc(_) => "mimc".into(), Pos(n, _, _, _, s) => format!("poseidon-{}-{:?}", n, s) }
    }
}
fn consts(n: usize) -> Vec<F> { (0..n).map(|i| if i < 7 { f([0, 3, -2, 11, 1, 5, 7][i]) } else { f(100 + 13 * i as i64) }).collect() }
fn params(n: usize, fb: usize, fe: usize, pr: usize) -> Result<Arc<PoseidonParams>, String> {
    static C: Memo<(usize, usize, usize, usize), PoseidonParams> = Memo::new();
    C.get(&(n, fb, fe, pr), || guard(|| PoseidonParams::new(n + 1, fb, fe, pr))?.map_err(|e| format!("{:?}", e)))
}
fn cap(n: usize) -> u64 { match n { 2 => CAP_CONST_W_3, 4 => CAP_CONST_W_5, _ => CAP_CONST_W_9 } }
fn hex(s: &str) -> F {
    let mut x = f(0);
    for d in s.trim_start_matches("0x").chars() { x = x * f(16) + f(d.to_digit(16).expect("hexadecimal") as i64) }
    x
}
/// Round keys and matrix, read from the table of constants.
fn table(n: usize) -> Arc<(Vec<F>, Vec<Vec<F>>)> {
    static C: Memo<usize, (Vec<F>, Vec<Vec<F>>)> = Memo::new();
    C.of(&n, || match n {
        2 => (ROUND_CONSTS_W_3.iter().map(|s| hex(s)).collect(), MDS_ENTRIES_W_3.iter().map(|r| r.iter().map(|s| hex(s)).collect()).collect()),
        4 => (ROUND_CONSTS_W_5.iter().map(|s| hex(s)).collect(), MDS_ENTRIES_W_5.iter().map(|r| r.iter().map(|s| hex(s)).collect()).collect()),
        _ => (ROUND_CONSTS_W_9.iter().map(|s| hex(s)).collect(), MDS_ENTRIES_W_9.iter().map(|r| r.iter().map(|s| hex(s)).collect()).collect()),
    })
}
/// The definition: every round adds its keys, applies the S-box (to the last word only in the middle rounds), and
/// multiplies by the matrix.
fn permutation(n: usize, fb: usize, fe: usize, pr: usize, s: S, input: &[F]) -> Option<Vec<F>> {
    let t = table(n);
    let w = n + 1;
    let mut st = input.to_vec();
    for r in 0..fb + pr + fe {
        for i in 0..w {
            st[i] = &st[i] + &t.0[r * w + i];
            if r < fb || r >= fb + pr || i == w - 1 { st[i] = s.apply(&st[i])? }
        }
        st = (0..w).map(|i| (0..w).fold(f(0), |a, j| a + &st[j] * &t.1[j][i])).collect();
    }
    Some(st)
}
pub fn reference(k: &Kind, x: &[F]) -> Option<F> {
    match k {
        Mimc(n) => {
            let (mut l, mut r) = (x[0].clone(), x[1].clone());
            for c in consts(*n) {
                let t = &l + &c;
                let t = &t * &t * &t + &r;
                r = l;
                l = t;
            }
            Some(l)
        }
        Pos(n, fb, pr, fe, s) => {
            let mut input = vec![F::from(cap(*n))];
            input.extend(x.iter().cloned());
            permutation(*n, *fb, *fe, *pr, *s, &input).map(|o| o[1].clone())
        }
    }
}
fn kinds(rounds: usize) -> Vec<Kind> {
    let mut out: Vec<Kind> = (0..=rounds + 1).map(Mimc).collect();
    for &n in &[2, 4, 8] { for &s in &[S::Cube, S::Inverse, S::Quint] {
        for t in 0..=rounds { for fb in 0..=t { for pr in 0..=t - fb { out.push(Pos(n, fb, pr, t - fb - pr, s)) } } }
    } }
    out
}
fn edges() -> Vec<F> { vec![f(0), f(1), f(-1), f(2), f(2).inverse(), f(i64::max_value())] }
/// Inputs: all distinct small numbers, with up to two replaced by an edge value.
fn inputs(c: &mut Ctx, k: &Kind, two: bool) -> Vec<F> {
    let n = k.arity();
    let mut x: Vec<F> = (0..n).map(|i| f(10 + i as i64)).collect();
    for _ in 0..1 + two as usize {
        let i = c.choose("replace", n + 1);
        if i == 0 { break }
        x[i - 1] = c.pick("by", &edges().iter().map(name).collect::<Vec<_>>()).parse::<i64>().map(f).unwrap_or_else(|_| f(0));
    }
    x
}
fn plain(k: &Kind, x: Vec<F>) -> Result<F, String> {
    let e = |e| format!("{:?}", e);
    match k {
        Mimc(n) => Mimc2 { constants: &consts(*n) }.hash(x).map_err(e),
        Pos(n, fb, pr, fe, s) => {
            let p = params(*n, *fb, *fe, *pr)?;
            match n {
                2 => PoseidonHash2 { params: &p, sbox: &s.lib() }.hash(x).map_err(e),
                4 => PoseidonHash4 { params: &p, sbox: &s.lib() }.hash(x).map_err(e),
                _ => PoseidonHash8 { params: &p, sbox: &s.lib() }.hash(x).map_err(e),
            }
        }
    }
}
fn direct(k: &Kind, x: Vec<F>) -> Result<F, String> {
    let e = |e| format!("{:?}", e);
    match k {
        Mimc(n) => Ok(mimc(&x[0], &x[1], &consts(*n))),
        Pos(n, fb, pr, fe, s) => {
            let p = params(*n, *fb, *fe, *pr)?;
            match n {
                2 => Poseidon_hash_2(x, &p, &s.lib()).map_err(e),
                4 => Poseidon_hash_4(x, &p, &s.lib()).map_err(e),
                _ => Poseidon_hash_8(x, &p, &s.lib()).map_err(e),
            }
        }
    }
}
/// In the clear.
fn values(c: &mut Ctx) -> R {
    let k = c.pick("hash", &kinds(c.q(2, 4)));
    let x = inputs(c, &k, c.thorough());
    c.state(&(&k, x.iter().map(name).collect::<Vec<_>>()));
    let t = k.tag();
    let what = || format!("{:?} of {:?}", k, x.iter().map(name).collect::<Vec<_>>());
    let want = reference(&k, &x);
    for (i, got) in vec![verdict(c, &t, &what, || plain(&k, x.clone()))?, verdict(c, &t, &what, || direct(&k, x.clone()))?].into_iter().enumerate() {
        match (&got, &want) {
            (None, _) => return violation(format!("{}:value", t), format!("{}: an error ({})", what(), i)),
            (Some(g), Some(w)) => c.ensure(g == w, &format!("{}:value", t), || format!("{} is {} instead of {}", what(), name(g), name(w)))?,
            _ => c.outcome("inverse of zero"),
        }
    }
    if let Pos(n, fb, pr, fe, s) = &k {
        // the permutation, all words of it, with the first word free as well
        let p = params(*n, *fb, *fe, *pr).unwrap();
        let mut input = vec![x[0].clone()];
        input.extend(x.iter().cloned());
        let got = c.no_panic(&t, "the permutation", || Poseidon_permutation(&input, &p, &s.lib()))?;
        if let Some(w) = permutation(*n, *fb, *fe, *pr, *s, &input) { c.ensure(got == w, &format!("{}:permutation", t), || format!("{}: the permutation", what()))? }
    }
    // no other number of inputs
    for m in 0..11 {
        if m == k.arity() { continue }
        let y: Vec<F> = (0..m).map(|i| x[i % x.len()].clone()).collect();
        expect(c, false, &format!("{}:count", t), || format!("{:?} of {} values", k, m), || plain(&k, y.clone()))?;
    }
    Ok(())
}
/// The parameters are the ones of the table, or refused.
fn parameters(c: &mut Ctx) -> R {
    let w = c.choose("width", 12);
    let r = [0usize, 1, 4, 31, 56, 63, 64, 65];
    let (fb, fe, pr) = (c.pick("first", &r), c.pick("last", &r), c.pick("middle", &r));
    c.state(&(w, fb, fe, pr));
    let what = || format!("width {} with {}+{}+{} rounds", w, fb, pr, fe);
    let got = verdict(c, "params", &what, || PoseidonParams::new(w, fb, fe, pr))?;
    let known = [3, 5, 9].contains(&w);
    let n = (fb + fe + pr) * w;
    let ok = known && n <= table(w - 1).0.len();
    c.ensure(got.is_some() == ok, "params", || format!("{}: {}", what(), if ok { "refused" } else { "accepted" }))?;
    if let Some(p) = got {
        let t = table(w - 1);
        c.ensure(p.width == w && p.full_rounds_beginning == fb && p.full_rounds_end == fe && p.partial_rounds == pr, "params", || format!("{}: other numbers", what()))?;
        c.ensure(p.round_keys[..] == t.0[..n], "params", || format!("{}: other round keys", what()))?;
        c.ensure(p.MDS_matrix == t.1, "params", || format!("{}: another matrix", what()))?;
        // the keys are random, the matrix is the Cauchy matrix of 0.. and width..
        for i in 0..w { for j in 0..w {
            c.ensure((&t.1[i][j] * &f((w + i + j) as i64)).is_one(), "params:mds", || format!("width {}: row {} column {}", w, i, j))?;
        } }
        let mut s: Vec<String> = t.0.iter().map(|x| x.to_hex()).collect();
        let all = s.len();
        s.sort();
        s.dedup();
        c.ensure(s.len() == all, "params:repeated", || format!("width {}: a constant occurs twice", w))?;
    }
    Ok(())
}
fn circuit<B: Builder>(b: &mut B, k: &Kind, x: &[F], image: &F) -> Result<(), R1CSError> {
    let q: Vec<_> = x.iter().map(|v| b.put(v.clone()).variable).collect();
    match k {
        Mimc(n) => mimc_gadget(b, q[0].into(), q[1].into(), &consts(*n), image),
        Pos(n, fb, pr, fe, s) => {
            let p = params(*n, *fb, *fe, *pr).expect("parameters");
            let cc = b.put_blinded(F::from(cap(*n)), f(0)).variable;
            match n {
                2 => Poseidon_hash_2_gadget(b, q, cc, &p, &s.lib(), image),
                4 => Poseidon_hash_4_gadget(b, q, cc, &p, &s.lib(), image),
                _ => Poseidon_hash_8_gadget(b, q, cc, &p, &s.lib(), image),
            }
        }
    }
}
fn forge(k: &Kind, x: &[F], image: &F, free: &[F]) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let ge = gens(128);
    let mut t = Transcript::new(b"hash");
    let mut b = Cheat::new(Prover::new(&ge.g, &ge.h, &mut t), free.to_vec());
    circuit(&mut b, k, x, image)?;
    Ok((b.p.prove(&ge.G, &ge.H)?, b.coms[..k.arity()].to_vec()))
}
fn check(k: &Kind, image: &F, proof: &R1CSProof, coms: &[G1]) -> Result<(), R1CSError> {
    let ge = gens(128);
    let (p, co) = (proof.clone(), coms.to_vec());
    let (l, g, h, G, H) = (b"hash", &ge.g, &ge.h, &ge.G, &ge.H);
    match k {
        Mimc(n) => verify_knowledge_of_preimage_of_mimc(image, &consts(*n), p, co, l, g, h, G, H),
        Pos(n, fb, pr, fe, s) => {
            let pa = params(*n, *fb, *fe, *pr).expect("parameters");
            match n {
                2 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(image, &pa, &s.lib(), p, co, l, g, h, G, H),
                4 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(image, &pa, &s.lib(), p, co, l, g, h, G, H),
                _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(image, &pa, &s.lib(), p, co, l, g, h, G, H),
            }
        }
    }
}
fn prove(k: &Kind, x: Vec<F>, image: &F, blinding: Option<Vec<F>>, random: bool) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let ge = gens(128);
    let (l, g, h, G, H) = (b"hash", &ge.g, &ge.h, &ge.G, &ge.H);
    let mut rng = OsRng;
    let rng = if random { Some(&mut rng) } else { None };
    match k {
        Mimc(n) => gen_proof_of_knowledge_of_preimage_of_mimc(x, blinding, image, &consts(*n), rng, l, g, h, G, H),
        Pos(n, fb, pr, fe, s) => {
            let pa = params(*n, *fb, *fe, *pr).expect("parameters");
            match n {
                2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(x, blinding, image, &pa, &s.lib(), rng, l, g, h, G, H),
                4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(x, blinding, image, &pa, &s.lib(), rng, l, g, h, G, H),
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(x, blinding, image, &pa, &s.lib(), rng, l, g, h, G, H),
            }
        }
    }
}
/// Whether the circuit is laid out as the library's verifier lays it out.
fn baseline(k: &Kind) -> bool {
    static C: Memo<Kind, bool> = Memo::new();
    *C.of(k, || {
        let x: Vec<F> = (0..k.arity()).map(|i| f(20 + i as i64)).collect();
        match reference(k, &x) {
            None => true,
            Some(y) => matches!(guard(|| forge(k, &x, &y, &[]).and_then(|(p, c)| check(k, &y, &p, &c))), Ok(Ok(()))),
        }
    })
}
/// As constraints, with every choice that a prover has.
fn witness(c: &mut Ctx) -> R {
    let all: Vec<Kind> = kinds(c.q(2, 3)).into_iter().filter(|k| match k { Pos(n, fb, pr, fe, S::Inverse) => (fb + fe) * (n + 1) + pr <= 10, _ => true }).collect();
    let k = c.pick("hash", &all);
    let free_wires = matches!(k, Pos(.., S::Inverse));
    let x = if free_wires { (0..k.arity()).map(|i| f(10 + i as i64)).collect() } else { inputs(c, &k, false) };
    let right = match reference(&k, &x) { Some(y) => y, None => { c.outcome("inverse of zero"); return Ok(()) } };
    let mut y2 = x.clone();
    y2.swap(0, 1);
    let mut images = vec![right.clone(), &right + &f(1), f(0), right.negation(), x[0].clone()];
    if let Some(o) = reference(&k, &y2) { images.push(o) }
    // an image that one wrong wire leads to: the S-boxes of the last round replaced by 1
    if let Pos(n, _, _, fe, _) = &k { if *fe > 0 { images.push((0..n + 1).fold(f(0), |a, j| a + &table(*n).1[j][1])) } }
    let image = images[c.choose("image", images.len())].clone();
    let dom = vec![f(0), f(1), f(-1)];
    let mut m = Model::new(Some(&mut *c), dom);
    let r = guard(|| circuit(&mut m, &k, &x, &image));
    let (sat, honest, free, mults) = (m.sat, m.honest, m.free.clone(), m.mul.len());
    drop(m);
    let t = k.tag();
    let show = || format!("{:?} of {:?} is {}, wires {:?}", k, x.iter().map(name).collect::<Vec<_>>(), name(&image), free.iter().map(name).collect::<Vec<_>>());
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return violation(format!("{}:circuit", t), format!("{}: {:?}", show(), e)),
        Err(p) => return violation(format!("{}:panic", t), format!("{}: {}", show(), p)),
    }
    c.state(&(&k, x.iter().map(name).collect::<Vec<_>>(), name(&image), free.iter().map(name).collect::<Vec<_>>()));
    c.outcome(if sat { "satisfied" } else { "unsatisfied" });
    let ok = image == right;
    if honest { c.ensure(sat == ok, &format!("{}:complete", t), || format!("{}: {}", show(), if sat { "satisfied" } else { "not satisfied" }))? }
    if sat && !ok {
        let accepted = matches!(guard(|| forge(&k, &x, &image, &free).and_then(|(p, cs)| check(&k, &image, &p, &cs))), Ok(Ok(())));
        return violation(format!("{}:sound", t), format!("a wrong image has a witness ({}): {}", if accepted { "and the library accepts its proof" } else { "though no accepted proof" }, show()));
    }
    if mults <= c.q(24, 64) && (sat || (honest && c.thorough())) && baseline(&k) {
        match verdict(c, &format!("{}:forge", t), &show, || forge(&k, &x, &image, &free))? {
            None => c.ensure(!sat, &format!("{}:conform", t), || format!("no proof: {}", show()))?,
            Some((p, cs)) => expect(c, sat, &format!("{}:conform", t), &show, || check(&k, &image, &p, &cs))?,
        }
    }
    Ok(())
}
/// Many rounds: every free wire, one at a time and with its neighbour, is set to other values, and the image to what
/// then comes out.
fn deep(c: &mut Ctx) -> R {
    let mut ks: Vec<Kind> = (3..c.q(14, 40)).map(Mimc).collect();
    for &s in &[S::Cube, S::Inverse, S::Quint] {
        for &(fb, pr, fe) in &[(4, 55, 4), (8, 0, 0), (0, 20, 0), (2, 10, 2), (4, 0, 4)] { ks.push(Pos(2, fb, pr, fe, s)) }
        for &n in &[4, 8] { for &(fb, pr, fe) in &[(2, 10, 2), (4, 55, 4)][..c.q(1, 2)] { ks.push(Pos(n, fb, pr, fe, s)) } }
    }
    let k = c.pick("hash", &ks);
    let x: Vec<F> = (0..k.arity()).map(|i| f(10 + i as i64)).collect();
    let right = match reference(&k, &x) { Some(y) => y, None => return Ok(()) };
    let t = k.tag();
    let run = |image: &F, force: Vec<(usize, F)>| -> V<(bool, Vec<F>, Vec<F>)> {
        let mut m = Model::new(None, vec![]);
        m.force = force;
        match guard(|| circuit(&mut m, &k, &x, image)) {
            Ok(Ok(())) => Ok((m.sat, m.free, m.off)),
            Ok(Err(e)) => Err(Violation { key: format!("{}:circuit", t), msg: format!("{:?}: {:?}", k, e) }),
            Err(p) => Err(Violation { key: format!("{}:panic", t), msg: format!("{:?}: {}", k, p) }),
        }
    };
    let (sat, free, _) = run(&right, vec![])?;
    c.step();
    c.ensure(sat, &format!("{}:complete", t), || format!("{:?}: the honest assignment is refused", k))?;
    let (wrong, _, _) = run(&(&right + &f(1)), vec![])?;
    c.ensure(!wrong, &format!("{}:sound", t), || format!("{:?}: a wrong image is satisfied", k))?;
    let step = 8;
    let part = c.choose("wires", (free.len() + step - 1) / step + 1);
    c.state(&(&k, part));
    for i in (part * step..(part + 1) * step).take_while(|i| *i < free.len()) {
        for v in vec![f(0), f(1), f(-1), &free[i] + &f(1), free[i].negation(), free[i].inverse()] {
            if v == free[i] { continue }
            let mut forces = vec![vec![(i, v.clone())]];
            if i + 1 < free.len() {
                for u in vec![f(0), f(1), v.clone(), if v.is_zero() { f(0) } else { v.inverse() }] { forces.push(vec![(i, v.clone()), (i + 1, u)]) }
            }
            for force in forces {
                c.step();
                let (sat, _, off) = run(&right, force.clone())?;
                // a free wire that nothing depends on does not matter
                if sat || off.len() != 1 { continue }
                for image in vec![&right + &off[0], &right - &off[0]] {
                    if image == right { continue }
                    let (sat, free, _) = run(&image, force.clone())?;
                    if sat {
                        let accepted = free.len() < 200 && matches!(guard(|| forge(&k, &x, &image, &free).and_then(|(p, cs)| check(&k, &image, &p, &cs))), Ok(Ok(())));
                        return violation(format!("{}:sound", t), format!("{:?}: with wires {:?} a wrong image has a witness ({})", k, force.iter().map(|w| (w.0, name(&w.1))).collect::<Vec<_>>(), if accepted { "and the library accepts its proof" } else { "no proof tried or accepted" }));
                    }
                }
            }
        }
    }
    Ok(())
}
/// All words of the permutation are constrained.
fn whole(c: &mut Ctx) -> R {
    let k = c.pick("hash", &kinds(c.q(2, 3)).into_iter().filter(|k| matches!(k, Pos(..))).collect::<Vec<_>>());
    let (n, fb, pr, fe, s) = match &k { Pos(n, fb, pr, fe, s) => (*n, *fb, *pr, *fe, *s), _ => unreachable!() };
    let x: Vec<F> = (0..n + 1).map(|i| f(3 + i as i64)).collect();
    let right = match permutation(n, fb, fe, pr, s, &x) { Some(y) => y, None => return Ok(()) };
    let mut out = right.clone();
    let i = c.choose("altered", n + 2);
    if i > 0 { out[i - 1] = &out[i - 1] + &f(1) }
    c.state(&(&k, i));
    let p = params(n, fb, fe, pr).unwrap();
    let mut m = Model::new(None, vec![]);
    let q: Vec<AllocatedQuantity> = x.iter().map(|v| m.put(v.clone())).collect();
    let r = c.no_panic(&k.tag(), "the permutation", || Poseidon_permutation_gadget(&mut m, q, &p, &s.lib(), &out))?;
    c.ensure(r.is_ok() && m.sat == (i == 0), &format!("{}:whole", k.tag()), || format!("{:?} with word {} altered: {}", k, i, m.sat))?;
    // the inputs may be any combinations
    let mut m = Model::new(None, vec![]);
    let q: Vec<LinearCombination> = x.iter().enumerate().map(|(i, v)| {
        let a = m.put(f(1 + i as i64)).variable;
        LinearCombination::from(a) + LinearCombination::from(v - &f(1 + i as i64))
    }).collect();
    let r = c.no_panic(&k.tag(), "the permutation", || Poseidon_permutation_constraints(&mut m, q, &p, &s.lib()))?;
    match r {
        Ok(lcs) => c.ensure(m.sat && lcs.iter().map(|l| m.eval(l)).collect::<Vec<_>>() == right, &format!("{}:combination", k.tag()), || format!("{:?} of combinations", k)),
        Err(e) => violation(format!("{}:combination", k.tag()), format!("{:?}: {:?}", k, e)),
    }
}
/// The library's own proofs.
fn own(c: &mut Ctx) -> R {
    let ks = vec![Mimc(0), Mimc(1), Mimc(3), Pos(2, 1, 1, 1, S::Cube), Pos(2, 1, 1, 1, S::Inverse), Pos(2, 1, 1, 1, S::Quint), Pos(2, 2, 0, 1, S::Quint), Pos(4, 1, 1, 1, S::Cube), Pos(4, 1, 1, 1, S::Inverse), Pos(4, 1, 1, 1, S::Quint), Pos(8, 1, 1, 1, S::Cube), Pos(8, 1, 1, 1, S::Inverse), Pos(8, 1, 1, 1, S::Quint), Mimc(2), Pos(2, 0, 0, 0, S::Cube)];
    let k = c.pick("hash", &ks);
    let how = c.choose("randomness", 2);
    let n = k.arity();
    let x: Vec<F> = (0..n).map(|i| f(31 + i as i64)).collect();
    let y = reference(&k, &x).expect("no zero");
    c.state(&(&k, how));
    let t = k.tag();
    let what = || format!("{:?}", k);
    let blind = |m: usize| Some((0..m).map(|i| f(500 + i as i64)).collect::<Vec<_>>());
    let b = if how == 0 { None } else { blind(n) };
    let (p, cs) = match verdict(c, &t, &what, || prove(&k, x.clone(), &y, b.clone(), how == 0))? {
        Some(x) => x,
        None => return violation(format!("{}:own", t), format!("{:?}: no proof", k)),
    };
    expect(c, true, &format!("{}:own", t), &what, || check(&k, &y, &p, &cs))?;
    c.ensure(cs.len() == n, &format!("{}:own", t), || format!("{:?}: {} commitments", k, cs.len()))?;
    // another image
    for z in vec![&y + &f(1), f(0), y.negation(), x[0].clone()] {
        if z == y { continue }
        expect(c, false, &format!("{}:image", t), || format!("{:?}: an image of {} for {}", k, name(&z), name(&y)), || check(&k, &z, &p, &cs))?;
        // and a proof of it is not accepted either
        if let Some((p, cs)) = verdict(c, &t, &what, || prove(&k, x.clone(), &z, b.clone(), how == 0))? {
            expect(c, false, &format!("{}:image", t), || format!("{:?}: a proof of an image of {} for {}", k, name(&z), name(&y)), || check(&k, &z, &p, &cs))?;
        }
    }
    // altered, exchanged or missing commitments
    let ge = gens(128);
    for i in 0..n {
        for d in vec![ge.g.clone(), ge.h.clone()] {
            let mut a = cs.clone();
            a[i] = a[i].clone() + d;
            expect(c, false, &format!("{}:commitment", t), || format!("{:?}: commitment {} altered", k, i), || check(&k, &y, &p, &a))?;
        }
        for j in 0..i {
            let mut a = cs.clone();
            a.swap(i, j);
            expect(c, false, &format!("{}:commitment", t), || format!("{:?}: commitments {} and {} exchanged", k, i, j), || check(&k, &y, &p, &a))?;
        }
        expect(c, false, &format!("{}:short", t), || format!("{:?}: {} commitments", k, i), || check(&k, &y, &p, &cs[..i]))?;
    }
    // as a proof about another hash
    for o in &ks {
        if o == &k || reference(o, &x[..o.arity().min(n)].iter().cloned().chain((n..o.arity()).map(|_| f(0))).collect::<Vec<_>>()).as_ref() == Some(&y) { continue }
        expect(c, false, &format!("{}:other", t), || format!("{:?} taken for {:?}", k, o), || check(o, &y, &p, &cs))?;
    }
    // what does not fit together is an error
    for m in 0..n + 2 {
        if m == n { continue }
        let z: Vec<F> = (0..m).map(|i| f(31 + i as i64)).collect();
        expect(c, false, &format!("{}:count", t), || format!("{:?}: {} inputs", k, m), || prove(&k, z.clone(), &y, b.clone(), how == 0))?;
        expect(c, false, &format!("{}:count", t), || format!("{:?}: {} blindings", k, m), || prove(&k, x.clone(), &y, blind(m), false))?;
    }
    expect(c, false, &format!("{}:norandom", t), || format!("{:?}: no randomness", k), || prove(&k, x.clone(), &y, None, false))
}
pub fn build(_t: Tier) -> Check {
    Check {
        rule: "An execution is one hash function with one number of rounds, one S-box and one input, computed in the clear and as constraints; the constraints are evaluated one by one by a model that runs the gadget's own code, with every free wire chosen by the explorer, and each satisfying assignment is replayed through the library's prover and verifier. A state is one complete assignment. The oracle is the definition of MiMC and Poseidon over the table of constants.".into(),
        assumptions: vec!["up to 2 (4) rounds of Poseidon and 3 (5) of MiMC: every round runs the same code".into(), "the inverse of zero is left out: the S-box does not define it".into(), "group and field arithmetic is amcl_wrapper's, outside the repository".into()],
        scenarios: vec![
            Scenario::new("values", "3 widths x 3 S-boxes x all ways of up to 2 (4) rounds, MiMC of up to 3 (5); inputs with one (two) of 6 edge values in each place; 10 wrong numbers of inputs", values),
            Scenario::new("parameters", "12 widths x 8^3 numbers of rounds", parameters),
            Scenario::new("witness", "the same hashes of up to 2 (3) rounds x 6 or 7 images x all free wires over 4 values", witness),
            Scenario::new("deep", "MiMC of up to 13 (39) rounds, Poseidon of up to 64 rounds x every free wire alone and with the next at up to 6 x 5 values x the image that comes out", deep),
            Scenario::new("whole", "the same permutations x each word altered", whole),
            Scenario::new("own", "15 hashes x 2 sources of randomness: other images, other hashes, altered and missing commitments, wrong numbers", own),
        ],
    }
}
